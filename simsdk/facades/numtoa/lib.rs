#![allow(unused_imports)]
pub use simsdk::numtoa::*;
