#![allow(unused_imports)]
pub use simsdk::substrate_frame_rpc_system::*;
