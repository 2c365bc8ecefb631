#![allow(unused_imports)]
pub use simsdk::pallets::inert::parachain_info::*;
