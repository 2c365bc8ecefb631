#![allow(unused_imports)]
pub use simsdk::pallets::parachain_system::*;
