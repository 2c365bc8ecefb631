#![allow(unused_imports)]
pub use simsdk::cid::*;
