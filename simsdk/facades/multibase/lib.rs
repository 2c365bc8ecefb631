#![allow(unused_imports)]
pub use simsdk::multibase::*;
