//! A small deterministic re-implementation of the parts of polkadot-sdk that LibertyDSNP/frequency is written
//! against, so that the repository's own pallets and runtime run inside one simulated process.
#![allow(clippy::all)]
#![allow(unused)]
#![allow(deprecated)]
#![allow(non_camel_case_types)]
#![recursion_limit = "512"]
extern crate self as simsdk;
#[doc(hidden)]
pub use simsdk_macros as macros;
pub mod codec;
pub mod enumflags2;
pub mod frame_executive;
pub mod misc;
pub use misc::*;
pub mod frame_support;
pub mod frame_system;
pub mod hashing;
pub mod scale_info;
pub mod sp_core;
pub mod sp_io;
pub mod sp_runtime;
pub mod sp_std;
pub mod sp_version;
pub mod sp_weights;
pub mod storage;
pub mod pallets;
pub use serde;
pub use log;
