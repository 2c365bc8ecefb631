#![allow(unused_imports)]
pub use simsdk::cumulus_primitives_core::*;
