#![allow(unused_imports)]
pub use simsdk::impl_serde::*;
