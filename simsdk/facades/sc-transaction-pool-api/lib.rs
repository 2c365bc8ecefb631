#![allow(unused_imports)]
pub use simsdk::sc_transaction_pool_api::*;
