//! Blocks: genesis, authoring, import. Everything below `author`/`import` is the repository's own runtime.
use frequency_runtime as rt;
use rt::{Executive, Runtime, RuntimeCall, RuntimeEvent, UncheckedExtrinsic};
use simsdk::codec::{Decode, Encode};
use simsdk::frame_system;
use simsdk::hashing::{blake2_256, twox_128};
use simsdk::sp_core::H256;
use simsdk::sp_runtime::traits::Header as _;
use simsdk::sp_runtime::transaction_validity::*;
use simsdk::sp_runtime::{ApplyExtrinsicResult, DispatchError};
use simsdk::storage::{self, Bytes, Ext, IndexOp, State};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Hash = H256;
pub type Acc = common_primitives::node::AccountId;
pub type Header = common_primitives::node::Header;

pub struct Tx {
	pub xt: UncheckedExtrinsic,
	pub len: usize,
	pub id: Hash,
}
impl Tx {
	pub fn new(xt: UncheckedExtrinsic) -> Arc<Tx> {
		let b = xt.encode();
		Arc::new(Tx { len: b.len(), id: H256(blake2_256(&b)), xt })
	}
}
/// A key, its value before and after.
pub type Touched = Vec<(Bytes, Option<Bytes>, Option<Bytes>)>;
pub struct XtRec {
	pub tx: Arc<Tx>,
	pub res: Result<(), DispatchError>,
	pub touched: Touched,
	pub events: Vec<RuntimeEvent>,
}
pub struct BlockRec {
	pub header: Header,
	pub hash: Hash,
	pub number: u32,
	pub parent: Hash,
	pub time: u64,
	pub relay: u32,
	pub inherents: Vec<Arc<Tx>>,
	pub xts: Vec<XtRec>,
	/// events outside of user transactions
	pub sys_events: Vec<RuntimeEvent>,
	pub state: Arc<State>,
	pub index: Vec<IndexOp>,
	/// transactions offered to the author that did not make it: (tx, why, state changed)
	pub refused: Vec<Refused>,
	/// what initialization, inherents and finalization changed
	pub init: Touched,
	pub fin: Touched,
	pub panics: Vec<(Arc<Tx>, String)>,
}
pub struct Refused {
	pub tx: Arc<Tx>,
	pub err: TransactionValidityError,
	/// number of transactions included before it was offered
	pub after: usize,
	/// keys that differ after the refusal (must be none)
	pub left: usize,
}
impl BlockRec {
	pub fn body(&self) -> Vec<UncheckedExtrinsic> {
		self.inherents.iter().map(|t| t.xt.clone()).chain(self.xts.iter().map(|x| x.tx.xt.clone())).collect()
	}
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
	e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub fn prefix(pallet: &str, item: &str) -> Vec<u8> {
	let mut k = twox_128(pallet.as_bytes()).to_vec();
	k.extend_from_slice(&twox_128(item.as_bytes()));
	k
}
/// All entries of one storage item: (rest of key, value).
pub fn entries<'a>(s: &'a State, p: &[u8]) -> Vec<(&'a [u8], &'a [u8])> {
	let mut k = vec![storage::TOP];
	k.extend_from_slice(p);
	let start: Bytes = Arc::from(&k[..]);
	s.map.range(start..).take_while(|(x, _)| x.starts_with(&k)).map(|(x, v)| (&x[k.len()..], &v[..])).collect()
}
pub fn value(s: &State, p: &[u8]) -> Option<Bytes> {
	let mut k = vec![storage::TOP];
	k.extend_from_slice(p);
	s.map.get(&k[..]).cloned()
}
pub fn decode<T: Decode>(mut b: &[u8]) -> T {
	let t = T::decode(&mut b).expect("storage value decodes");
	t
}

pub fn genesis(f: impl FnOnce()) -> Arc<BlockRec> {
	let ((), ext) = storage::run(Ext::new(Default::default()), || {
		f();
	});
	let mut st = State::default();
	let (ch, _) = ext.finish();
	st.apply(&ch);
	let header = header(0, root_hash(&st), Default::default());
	Arc::new(BlockRec {
		hash: header.hash(),
		number: 0,
		parent: Default::default(),
		time: 1_700_000_000_000,
		relay: 1000,
		header,
		inherents: vec![],
		xts: vec![],
		sys_events: vec![],
		state: Arc::new(st),
		index: vec![],
		refused: vec![],
		init: vec![],
		fin: vec![],
		panics: vec![],
	})
}
pub fn root_hash(s: &State) -> Hash {
	let mut h = [0u8; 32];
	h[..16].copy_from_slice(&s.root.to_be_bytes());
	H256(h)
}

fn unsigned(call: RuntimeCall) -> Arc<Tx> {
	Tx::new(UncheckedExtrinsic::new_unsigned(call))
}

/// Builds a block on `parent` from `pool` in the given order, the way the real block builder does.
pub fn author(parent: &BlockRec, time: u64, relay: u32, pool: &[Arc<Tx>]) -> Result<BlockRec, String> {
	let number = parent.number + 1;
	let inherents = vec![
		unsigned(RuntimeCall::ParachainSystem(simsdk::pallets::parachain_system::Call::set_validation_data { relay_parent_number: relay })),
		unsigned(RuntimeCall::Timestamp(simsdk::pallets::timestamp::Call::set { now: time })),
	];
	let init = header(number, Default::default(), parent.hash);
	let mut included: Vec<XtRec> = vec![];
	let mut refused = vec![];
	let mut panics = vec![];
	let (mut init_t, mut fin_t) = (vec![], vec![]);
	let r = guarded(|| {
		storage::run(Ext::new(parent.state.clone()), || {
			storage::start_transaction();
			Executive::initialize_block(&init);
			for i in &inherents {
				match Executive::apply_extrinsic(i.xt.clone()) {
					Ok(Ok(())) => {},
					e => panic!("inherent failed: {:?}", e),
				}
			}
			init_t = storage::with(|e| e.touched());
			storage::commit_transaction();
			for t in pool {
				storage::start_transaction();
				match guarded(|| Executive::apply_extrinsic(t.xt.clone())) {
					Ok(Ok(res)) => {
						let touched = storage::with(|e| e.touched());
						storage::commit_transaction();
						included.push(XtRec { tx: t.clone(), res, touched, events: vec![] });
					},
					Ok(Err(err)) => {
						storage::rollback_transaction();
						let left = storage::with(|x| x.depth());
						refused.push(Refused { tx: t.clone(), err, after: included.len(), left });
					},
					Err(p) => {
						storage::rollback_to(0);
						panics.push((t.clone(), p));
					},
				}
			}
			storage::start_transaction();
			let h = Executive::finalize_block();
			fin_t = storage::with(|e| e.touched());
			storage::commit_transaction();
			h
		})
	});
	let (header, ext) = r?;
	let (ch, index) = ext.finish();
	let mut st = (*parent.state).clone();
	st.apply(&ch);
	let st = Arc::new(st);
	let (mut by_xt, mut sys) = (vec![vec![]; inherents.len() + included.len()], vec![]);
	if let Some(v) = value(&st, &prefix("System", "Events")) {
		let ev: Vec<frame_system::EventRecord<RuntimeEvent, Hash>> = decode(&v);
		for e in ev {
			match e.phase {
				frame_system::Phase::ApplyExtrinsic(i) => by_xt[i as usize].push(e.event),
				_ => sys.push(e.event),
			}
		}
	}
	for (i, x) in included.iter_mut().enumerate() {
		x.events = std::mem::take(&mut by_xt[i + inherents.len()]);
	}
	Ok(BlockRec {
		hash: header.hash(),
		number,
		parent: parent.hash,
		time,
		relay,
		header,
		inherents,
		xts: included,
		sys_events: sys,
		state: st,
		index,
		refused,
		init: init_t,
		fin: fin_t,
		panics,
	})
}

/// Executes somebody else's block on the parent state of the importing node.
pub fn import(parent: &Arc<State>, b: &BlockRec) -> Result<(Arc<State>, Vec<IndexOp>), String> {
	let block = rt::Block { header: b.header.clone(), extrinsics: b.body() };
	let (_, ext) = guarded(|| storage::run(Ext::new(parent.clone()), || Executive::execute_block(block)))?;
	let (ch, index) = ext.finish();
	let mut st = (**parent).clone();
	st.apply(&ch);
	Ok((Arc::new(st), index))
}

/// What a node's pool asks the runtime.
pub fn validate(at: &BlockRec, t: &Tx) -> Result<TransactionValidity, String> {
	guarded(|| storage::query(&at.state, || Executive::validate_transaction(TransactionSource::External, t.xt.clone(), at.hash)))
}

fn header(number: u32, state_root: Hash, parent_hash: Hash) -> Header {
	Header { parent_hash, number, state_root, extrinsics_root: Default::default(), digest: Default::default() }
}
