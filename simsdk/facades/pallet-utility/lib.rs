#![allow(unused_imports)]
pub use simsdk::pallets::utility::*;
