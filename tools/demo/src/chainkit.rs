//! A chain of one node for demonstrations: the repository's runtime, one block after the other.
pub(crate) use crate::chain;
pub use crate::chain::{Acc, BlockRec, Hash, Tx};
pub use crate::users::{acc, sign_payload};
pub use frequency_runtime::{Runtime, RuntimeCall, RuntimeEvent};
pub use simsdk::codec::{Decode, Encode};
pub use simsdk::sp_runtime::transaction_validity::TransactionValidityError;
pub use simsdk::sp_runtime::{DispatchError, MultiSignature};
use simsdk::sp_runtime::generic::Era;
use simsdk::storage;
use std::sync::Arc;

pub struct Chain {
	pub blocks: Vec<Arc<BlockRec>>,
}
pub type Out = Result<Result<(), DispatchError>, TransactionValidityError>;
impl Chain {
	pub fn new() -> Chain {
		use simsdk::frame_support::traits::BuildGenesisConfig;
		use simsdk::pallets::{balances, collective, sudo};
		frequency_runtime::set_max_sigs(0);
		let g = chain::genesis(|| {
			let balances = (0..16).filter(|i| *i < 9 || *i == 15).map(|i| (acc(i), 100_000_000_000u128 * if i == 15 { 100 } else { 1 })).collect();
			simsdk::frame_system::GenesisConfig::<Runtime>::default().build();
			balances::GenesisConfig::<Runtime> { balances }.build();
			sudo::GenesisConfig::<Runtime> { key: Some(acc(15)) }.build();
			collective::GenesisConfig::<Runtime, collective::Instance1> { phantom: Default::default(), members: (0..3).map(acc).collect() }.build();
			collective::GenesisConfig::<Runtime, collective::Instance2> { phantom: Default::default(), members: (0..2).map(acc).collect() }.build();
			pallet_schemas::GenesisConfig::<Runtime> { initial_max_schema_model_size: 1024, ..Default::default() }.build();
		});
		Chain { blocks: vec![g] }
	}
	pub fn head(&self) -> Arc<BlockRec> {
		self.blocks.last().unwrap().clone()
	}
	pub fn number(&self) -> u32 {
		self.head().number
	}
	/// Adds a block with these transactions.
	pub fn block(&mut self, l: &[Arc<Tx>]) -> Arc<BlockRec> {
		let h = self.head();
		let b = Arc::new(chain::author(&h, h.time + 12_000, h.relay + 1, l).expect("block"));
		assert!(b.panics.is_empty(), "panic: {:?}", b.panics.iter().map(|p| &p.1).collect::<Vec<_>>());
		self.blocks.push(b.clone());
		b
	}
	pub fn skip(&mut self, n: u32) {
		for _ in 0..n {
			self.block(&[]);
		}
	}
	/// the same with any other relay chain block number
	pub fn at_relay(&mut self, relay: u32) {
		let h = self.head();
		self.blocks.push(Arc::new(chain::author(&h, h.time + 12_000, relay, &[]).expect("block")));
	}
	pub fn tx(&self, who: usize, call: impl Into<RuntimeCall>, nonce: u32) -> Arc<Tx> {
		let g = self.blocks[0].hash;
		Tx::new(crate::users::sign_tx(who, call.into(), Era::Immortal, nonce, 0, g, g))
	}
	pub fn nonce(&self, who: usize) -> u32 {
		self.read(|| simsdk::frame_system::Pallet::<Runtime>::account_nonce(&acc(who)))
	}
	/// Sends a transaction in a block of its own.
	pub fn send(&mut self, who: usize, call: impl Into<RuntimeCall>) -> Out {
		let t = self.tx(who, call, self.nonce(who));
		let b = self.block(&[t]);
		match b.refused.first() {
			Some(r) => Err(r.err.clone()),
			None => Ok(b.xts[0].res.clone()),
		}
	}
	/// The same for a call which must succeed.
	pub fn ok(&mut self, who: usize, call: impl Into<RuntimeCall>) {
		let c: RuntimeCall = call.into();
		let t = format!("{:?}", c);
		let r = self.send(who, c);
		if r != Ok(Ok(())) {
			println!("setup: {} gives {:?}", t, r);
			std::process::exit(99);
		}
	}
	pub fn root(&mut self, call: impl Into<RuntimeCall>) {
		self.ok(15, simsdk::pallets::sudo::Call::<Runtime>::sudo { call: Box::new(call.into()) });
	}
	pub fn read<R>(&self, f: impl FnOnce() -> R) -> R {
		storage::query(&self.head().state, f)
	}
	pub fn msa(&self, who: usize) -> Option<u64> {
		self.read(|| pallet_msa::Pallet::<Runtime>::get_msa_by_public_key(&acc(who)))
	}
	pub fn events(&self) -> Vec<RuntimeEvent> {
		self.head().xts.iter().flat_map(|x| x.events.clone()).collect()
	}
}
