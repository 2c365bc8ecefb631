#!/bin/bash
# packs the stand-in SDK and the chain kit for a demonstration: pack.sh OUT.tar.gz
w=$(mktemp -d)
cp -r /verif/simsdk/{core,macros,facades,repo,runtime,env.sh,Cargo.lock} $w
sed 's/, "sealing", "noderpc", "sim"]/, "demo"]/' /verif/simsdk/Cargo.toml > $w/Cargo.toml
cp -r /verif/tools/demo $w/demo
rm $w/demo/demo.sh $w/demo/pack.sh
sed -i 's/^name = "frqsim"/name = "demo"/' $w/Cargo.lock
sed -i "s#:-/verif/target#:-/nowhere#" $w/env.sh
tar czf $1 --sort=name --mtime=2020-01-01 -C $w .
rm -rf "$w"
