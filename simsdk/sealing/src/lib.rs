//! node/service/src/block_sealing.rs of the tree, on a stand-in node: everything it imports is this crate under another name,
//! and whatever waits, waits for the simulated clock.
#![allow(dead_code, unused_imports, unused_variables, clippy::all)]
extern crate self as futures;
extern crate self as parity_scale_codec;
extern crate self as sc_basic_authorship;
extern crate self as sc_client_api;
extern crate self as sc_consensus;
extern crate self as sc_consensus_manual_seal;
extern crate self as sc_network;
extern crate self as sc_offchain;
extern crate self as sc_service;
extern crate self as sc_transaction_pool_api;
extern crate self as sp_api;
extern crate self as sp_blockchain;
extern crate self as sp_consensus;
extern crate self as sp_inherents;
extern crate self as sp_runtime;
extern crate self as sp_timestamp;
extern crate self as tokio;

/// futures, except for what draws random numbers of its own
pub use real_futures::*;
/// Polls the streams in an order the seed decides.
#[macro_export]
macro_rules! stream_select {
	($($s:expr),* $(,)?) => {
		$crate::Selected(vec![$($crate::stream::StreamExt::boxed_local($s)),*])
	};
}
pub struct Selected<T>(pub Vec<stream::LocalBoxStream<'static, T>>);
impl<T> Stream for Selected<T> {
	type Item = T;
	fn poll_next(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Option<T>> {
		use std::task::Poll;
		let n = self.0.len();
		for i in (1..n).rev() {
			let j = world::with(|w| w.rand(i as u64 + 1)) as usize;
			self.0.swap(i, j);
		}
		let mut i = 0;
		while i < self.0.len() {
			match self.0[i].as_mut().poll_next(cx) {
				Poll::Ready(Some(t)) => return Poll::Ready(Some(t)),
				Poll::Ready(None) => drop(self.0.remove(i)),
				Poll::Pending => i += 1,
			}
		}
		if self.0.is_empty() {
			Poll::Ready(None)
		} else {
			Poll::Pending
		}
	}
}
#[path = "/repo/node/service/src/block_sealing.rs"]
pub mod block_sealing;
mod parts;
mod seal;
pub mod time;
pub mod world;
pub use cli_opt::SealingMode;
pub use parts::*;
pub use seal::*;
