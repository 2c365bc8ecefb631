#![allow(unused_imports)]
pub use simsdk::pallets::proxy::*;
