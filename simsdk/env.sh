export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.76.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints allow"
export CARGO_TARGET_DIR=${SIM_TARGET_DIR:-/verif/target}
