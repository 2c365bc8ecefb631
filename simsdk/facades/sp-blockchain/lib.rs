#![allow(unused_imports)]
pub use simsdk::sp_blockchain::*;
