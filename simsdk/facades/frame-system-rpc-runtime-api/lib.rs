#![allow(unused_imports)]
pub use simsdk::frame_system_rpc_runtime_api::*;
