#![allow(unused_imports)]
pub use simsdk::scale_info::*;
