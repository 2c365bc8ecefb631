#![allow(unused_imports)]
pub use simsdk::pallet_transaction_payment_rpc_runtime_api::*;
