//! The node's own RPC of /repo/node/service, compiled as it is.
/// events of a block, missing nonces of an account
#[path = "/repo/node/service/src/rpc/frequency_rpc.rs"]
pub mod frequency_rpc;
