#![allow(unused_imports)]
pub use simsdk::polkadot_runtime_common::*;
