#![allow(unused_imports)]
pub use simsdk::frame_executive::*;
