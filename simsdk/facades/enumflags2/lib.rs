#![allow(unused_imports)]
pub use simsdk::enumflags2::*;
