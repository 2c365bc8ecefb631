#![allow(unused_imports)]
pub use simsdk::sp_block_builder::*;
