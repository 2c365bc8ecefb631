#![allow(unused_imports)]
pub use simsdk::pallets::transaction_payment::*;
