//! Several nodes, a network that loses, repeats and reorders, forks, crashes; every step is decided by the run's operations.
use crate::chain::*;
use crate::gen::{self, Ctx, KINDS};
use crate::oracle::*;
use crate::rng::Rng;
use crate::users;
use crate::view::View;
use frequency_runtime::{RuntimeCall, UncheckedExtrinsic};
use simsdk::storage::State;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub const SUBMIT: u8 = 0;
pub const DELIVER: u8 = 1;
pub const DROP: u8 = 2;
pub const DUP: u8 = 3;
pub const AUTHOR: u8 = 4;
pub const SKIP: u8 = 5;
pub const CRASH: u8 = 6;
pub const RESTART: u8 = 7;
pub const PARTITION: u8 = 8;
pub const HEAL: u8 = 9;
pub const FINALIZE: u8 = 10;
pub const OCW: u8 = 11;
pub const QUERY: u8 = 12;
pub const UPGRADE: u8 = 13;
pub const OPS: usize = 14;
pub const OP_NAMES: [&str; OPS] = ["submit", "deliver", "drop", "duplicate", "author", "skip blocks", "crash", "restart", "partition", "heal", "finalize", "offchain worker", "query", "upgrade"];

#[derive(Clone)]
pub struct Profile {
	pub name: &'static str,
	/// weights of kinds of transactions
	pub w: [u32; KINDS],
	/// percentage of transactions with something wrong
	pub bad: u64,
	/// size of the pool of handle names
	pub bases: u8,
	/// percentage of storage writes that go to the same few pages
	pub hot: u64,
	pub crowd: u64,
	/// schemas published at the start besides the usual ones
	pub schemas: u8,
	/// the suffix range was another one when some of the handles were claimed
	pub window: bool,
	/// pages with a long past: many items, full pages, many updates
	pub aged: bool,
	/// schemas published at the start under one name
	pub versions: u8,
	/// size of the signature registry (0: the real one)
	pub max_sigs: u32,
	pub epoch_len: u32,
	pub nodes: usize,
	pub ops: [u32; OPS],
	pub len: (u64, u64),
	/// most blocks skipped at once
	pub skip: u64,
	/// only the first node authors, so there are no forks
	pub single: bool,
	/// number of the first block at which off-chain workers are started
	pub first_worker: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
	pub kind: u8,
	pub r: u64,
}
impl Profile {
	pub fn ops(&self, seed: u64) -> Vec<Op> {
		draw(&self.ops, self.len, seed)
	}
}
/// Operations with the given weights.
pub fn draw(w: &[u32], len: (u64, u64), seed: u64) -> Vec<Op> {
	let mut r = Rng::new(seed);
	let n = r.range(len.0, len.1);
	let total: u32 = w.iter().sum();
	(0..n)
		.map(|_| {
			let mut x = r.below(total as u64) as u32;
			let mut kind = 0;
			for (i, w) in w.iter().enumerate() {
				if x < *w {
					kind = i as u8;
					break
				}
				x -= w;
			}
			Op { kind, r: r.next() }
		})
		.collect()
}

#[derive(Clone)]
pub enum Packet {
	Tx(Arc<Tx>),
	Block(Hash),
}
#[derive(Clone)]
pub struct Node {
	/// blocks this node has executed, with the state it computed itself
	pub known: HashMap<Hash, Arc<State>>,
	pub orphans: Vec<Hash>,
	pub head: Hash,
	pub pool: Vec<Arc<Tx>>,
	pub up: bool,
	pub side: u8,
}
pub struct World<'p> {
	pub p: &'p Profile,
	pub blocks: HashMap<Hash, Arc<BlockRec>>,
	pub views: HashMap<Hash, View>,
	pub hists: HashMap<Hash, Arc<Hist>>,
	pub genesis: Hash,
	pub finalized: Hash,
	pub nodes: Vec<Node>,
	pub net: Vec<(usize, usize, Packet)>,
	pub bank: Vec<RuntimeCall>,
	pub sent: Vec<UncheckedExtrinsic>,
	pub viols: Vec<(usize, Viol)>,
	pub cov: Cov,
	pub step: usize,
	pub max_sigs: u32,
	pub pools: bool,
	pub trace: Option<Vec<String>>,
	pub ocw: crate::ocw::Ocw,
}
#[derive(Clone)]
struct Base {
	blocks: Vec<Arc<BlockRec>>,
	views: Vec<View>,
	hists: Vec<Arc<Hist>>,
	viols: Vec<Viol>,
}
thread_local! {
	static BASES: RefCell<HashMap<String, Base>> = RefCell::new(HashMap::new());
}

/// (MSA, suffix) of handles from before the suffix range was changed
pub const EARLIER: [(u64, u16); 5] = [(2, 101), (3, 109), (4, 104), (5, 102), (6, 106)];
/// Handles of a time when suffixes were between 101 and 109; their owners are the first MSAs.
fn earlier_handles() {
	use frequency_runtime::Runtime as R;
	for (i, (base, used)) in [("alice", 0u16), ("test-er", 8), ("user one", 3), ("Bobby", 1), ("zoe", 5), ("sammy", 0)].into_iter().enumerate() {
		let canonical = gen::bv(crate::refhandle::canonical(base).into_bytes());
		pallet_handles::CanonicalBaseHandleToSuffixIndex::<R>::insert(canonical.clone(), (used, 101));
		if i < 5 {
			let (msa, suffix) = EARLIER[i];
			pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<R>::insert(canonical, suffix, msa);
			pallet_handles::MSAIdToDisplayName::<R>::insert(msa, (gen::bv(format!("{}.{}", base, suffix).into_bytes()), 0));
		}
	}
}
/// Pages that were written to for years.
fn aged_pages() {
	use simsdk::codec::Encode;
	use simsdk::frame_support::storage::child;
	use simsdk::hashing::{blake2_128, twox_128, twox_64};
	let msa = 3u64;
	let put = |kind: &[u8], keys: &[u16], nonce: u16, data: Vec<u8>| {
		let name = [&blake2_128(&[&msa.encode()[..], b"::"].concat())[..], &twox_64(b"stateful-storage"), &twox_64(kind)].concat();
		let mut k: Vec<u8> = keys.iter().flat_map(|k| twox_128(&k.encode())).collect();
		keys.iter().for_each(|x| k.extend(x.encode()));
		let info = simsdk::sp_core::storage::ChildInfo::new_default(&name);
		child::put_raw(&info, &k, &(nonce, data).encode());
	};
	let items = |n: usize, l: usize| -> Vec<u8> { (0..n).flat_map(|i| [&(l as u16).to_le_bytes()[..], &vec![i as u8; l]].concat()).collect() };
	put(b"itemized", &[3], 65_530, items(250, 1));
	put(b"itemized", &[4], 300, items(10, 1020));
	put(b"itemized", &[8], 255, items(1020, 8));
	put(b"paginated", &[6, 0], 65_532, vec![7; 30]);
	put(b"paginated", &[6, 2], 254, vec![8; 1024]);
}
pub fn genesis_block(p: &Profile) -> Arc<BlockRec> {
	use frequency_runtime::Runtime;
	use simsdk::frame_support::traits::BuildGenesisConfig;
	use simsdk::pallets::{balances, collective, sudo};
	genesis(|| {
		let rich = 1000 * crate::model::DOLLAR;
		let balances = (0..users::N)
			.filter_map(|i| match i {
				users::SUDO => Some(100 * rich),
				0..=8 => Some(rich),
				9 => Some(3 * crate::model::DOLLAR),
				10 => Some(crate::model::ED + 10),
				_ => None,
			}
			.map(|b| (users::acc(i), b)))
			.chain(gen::TEAMS.iter().map(|t| (gen::team_account(t), rich)))
			.collect();
		simsdk::frame_system::GenesisConfig::<Runtime>::default().build();
		balances::GenesisConfig::<Runtime> { balances }.build();
		sudo::GenesisConfig::<Runtime> { key: Some(users::sudo()) }.build();
		collective::GenesisConfig::<Runtime, simsdk::pallets::collective::Instance1> { phantom: Default::default(), members: (0..3).map(users::acc).collect() }.build();
		collective::GenesisConfig::<Runtime, simsdk::pallets::collective::Instance2> { phantom: Default::default(), members: (0..2).map(users::acc).collect() }.build();
		pallet_schemas::GenesisConfig::<Runtime> { initial_max_schema_model_size: 1024, ..Default::default() }.build();
		if p.aged {
			aged_pages();
		}
		if p.window {
			earlier_handles();
		}
	})
}

impl<'p> World<'p> {
	pub fn new(p: &'p Profile) -> Self {
		let max_sigs = frequency_runtime::set_max_sigs(p.max_sigs);
		let mut w = World {
			p,
			blocks: HashMap::new(),
			views: HashMap::new(),
			hists: HashMap::new(),
			genesis: Default::default(),
			finalized: Default::default(),
			nodes: vec![],
			net: vec![],
			bank: vec![],
			sent: vec![],
			viols: vec![],
			cov: Cov::default(),
			step: 0,
			max_sigs,
			pools: true,
			trace: None,
			ocw: Default::default(),
		};
		let base = BASES.with(|b| b.borrow().get(p.name).cloned());
		let base = match base {
			Some(b) => b,
			None => {
				let b = w.prelude();
				BASES.with(|m| m.borrow_mut().insert(p.name.into(), b.clone()));
				b
			},
		};
		w.viols = base.viols.iter().map(|v| (0, v.clone())).collect();
		w.genesis = base.blocks[0].hash;
		w.finalized = w.genesis;
		let head = base.blocks.last().unwrap().hash;
		let known: HashMap<Hash, Arc<State>> = base.blocks.iter().map(|b| (b.hash, b.state.clone())).collect();
		for (i, b) in base.blocks.iter().enumerate() {
			w.views.insert(b.hash, base.views[i].clone());
			w.hists.insert(b.hash, base.hists[i].clone());
			w.blocks.insert(b.hash, b.clone());
		}
		w.nodes = (0..p.nodes).map(|_| Node { known: known.clone(), orphans: vec![], head, pool: vec![], up: true, side: 0 }).collect();
		w.cov = Cov::default();
		w.net.clear();
		w.ocw = crate::ocw::Ocw { start: p.first_worker, on: p.ops[OCW as usize] > 0, nodes: w.nodes.iter().map(|_| Default::default()).collect(), ..Default::default() };
		for b in &base.blocks {
			for n in 0..p.nodes {
				crate::ocw::learn(&mut w, n, b.hash);
			}
		}
		for b in &base.blocks {
			for x in &b.xts {
				gen::carries(&x.tx.xt.function, &mut w.bank);
			}
		}
		w
	}
	/// The same beginning for all runs of a profile, held against the reference like everything else.
	fn prelude(&mut self) -> Base {
		use common_primitives::schema::{ModelType, PayloadLocation as L, SchemaSetting as T};
		use pallet_msa::Call as A;
		use simsdk::codec::Encode;
		use simsdk::sp_runtime::generic::Era;
		let g = genesis_block(self.p);
		self.genesis = g.hash;
		self.finalized = g.hash;
		self.views.insert(g.hash, View::of(&g.state));
		self.hists.insert(g.hash, Default::default());
		self.blocks.insert(g.hash, g.clone());
		self.nodes = vec![Node { known: [(g.hash, g.state.clone())].into(), orphans: vec![], head: g.hash, pool: vec![], up: true, side: 0 }];
		let mut nonces: BTreeMap<usize, u32> = BTreeMap::new();
		let mut mk = |who: usize, c: RuntimeCall| {
			let n = nonces.entry(who).or_default();
			*n += 1;
			Tx::new(users::sign_tx(who, c, Era::Immortal, *n - 1, 0, g.hash, g.hash))
		};
		let model = |i: u8| gen::bv(format!("{{\"type\": \"record\", \"id\": {}}}", i).into_bytes());
		let mut b1: Vec<Arc<Tx>> = (0..7).map(|i| mk(i, A::create {}.into())).collect();
		b1.push(mk(users::SUDO, gen::sudo(pallet_capacity::Call::set_epoch_length { length: self.p.epoch_len }.into())));
		let mut b2 = vec![];
		for i in 0..2 {
			b2.push(mk(users::SUDO, gen::sudo(A::create_provider_via_governance { provider_key: users::acc(i), provider_name: vec![b'p', b'0' + i as u8] }.into())));
		}
		let schemas: [(L, Vec<T>, Option<&str>); 8] = [
			(L::OnChain, vec![], Some("dsnp.broadcast")),
			(L::IPFS, vec![], None),
			(L::Itemized, vec![], None),
			(L::Itemized, vec![T::AppendOnly], Some("dsnp.keys")),
			(L::Itemized, vec![T::SignatureRequired], None),
			(L::Paginated, vec![], None),
			(L::Paginated, vec![T::SignatureRequired], None),
			(L::Itemized, vec![T::AppendOnly, T::SignatureRequired], None),
		];
		for (i, (l, s, n)) in schemas.into_iter().enumerate() {
			let c = pallet_schemas::Call::create_schema_via_governance_v2 {
				creator_key: users::acc(0),
				model: model(i as u8),
				model_type: ModelType::AvroBinary,
				payload_location: l,
				settings: gen::bv(s),
				schema_name: n.map(|n| gen::bv(n.as_bytes().to_vec())),
			};
			b2.push(mk(users::SUDO, gen::sudo(c.into())));
		}
		for i in 0..self.p.schemas {
			let c = pallet_schemas::Call::create_schema_via_governance {
				creator_key: users::acc(0),
				model: model(100 + i),
				model_type: ModelType::AvroBinary,
				payload_location: L::IPFS,
				settings: Default::default(),
			};
			b2.push(mk(users::SUDO, gen::sudo(c.into())));
		}
		// in portions a block can hold
		let mut many = vec![];
		for start in (0..self.p.versions).step_by(36) {
			let calls = (start..self.p.versions.min(start.saturating_add(36)))
				.map(|i| {
					pallet_schemas::Call::create_schema_via_governance_v2 {
						creator_key: users::acc(0),
						model: model(i),
						model_type: ModelType::AvroBinary,
						payload_location: L::OnChain,
						settings: Default::default(),
						schema_name: Some(gen::bv(b"dsnp.reply".to_vec())),
					}
					.into()
				})
				.collect();
			many.push(vec![mk(users::SUDO, gen::sudo(simsdk::pallets::utility::Call::batch_all { calls }.into()))]);
		}
		let mut b3 = vec![];
		let grants: &[(usize, usize)] = if self.p.max_sigs == 2 { &[] } else if self.p.max_sigs > 0 { &[(2, 0), (3, 1)] } else { &[(2, 0), (3, 1), (4, 0), (5, 1), (6, 0), (4, 1)] };
		for (d, p) in grants {
			let pl = pallet_msa::types::AddProvider { authorized_msa_id: *p as u64 + 1, schema_ids: vec![1, 3, 4, 5, 6, 7, 8], expiration: 50 };
			let proof = users::sign_payload(*d, &pl.encode());
			b3.push(mk(*p, A::grant_delegation { delegator_key: users::acc(*d), proof, add_provider_payload: pl }.into()));
		}
		let dollar = crate::model::DOLLAR;
		b3.push(mk(7, pallet_capacity::Call::stake { target: 1, amount: 200 * dollar }.into()));
		b3.push(mk(8, pallet_capacity::Call::stake { target: 2, amount: 100 * dollar }.into()));
		use frequency_runtime::ProxyType as Y;
		for (r, d, t) in [(0, 7, Y::Any), (1, 8, Y::NonTransfer), (2, 9, Y::Staking), (4, 7, Y::Governance)] {
			b3.push(mk(r, simsdk::pallets::proxy::Call::add_proxy { delegate: simsdk::sp_runtime::MultiAddress::Id(users::acc(d)), proxy_type: t, delay: 0 }.into()));
		}
		let mut chain = vec![g.clone()];
		let pools = [b1, b2].into_iter().chain(many).chain([b3, vec![]]);
		for pool in pools {
			let parent = chain.last().unwrap().clone();
			match self.make(0, &parent, parent.time + 12_000, parent.relay + 2, &pool) {
				Some(b) => {
					if b.xts.len() != pool.len() || b.xts.iter().any(|x| x.res.is_err()) {
						let e = b.xts.iter().find(|x| x.res.is_err()).map(|x| format!("{:?}: {}", x.res, describe(&x.tx.xt.function)));
						self.cov.add(format!("prelude: {:?} {:?}", e, b.refused.first().map(|r| &r.err)), 1);
					}
					chain.push(b)
				},
				None => break,
			}
		}
		Base {
			views: chain.iter().map(|b| self.views[&b.hash].clone()).collect(),
			hists: chain.iter().map(|b| self.hists[&b.hash].clone()).collect(),
			blocks: chain,
			viols: self.viols.iter().map(|v| v.1.clone()).collect(),
		}
	}
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		if let Some(t) = &mut self.trace {
			let s = f();
			t.push(format!("{:3}: {}", self.step, s));
		}
	}
	pub fn viol(&mut self, prop: &'static str, sig: &str, text: String) {
		self.viols.push((self.step, Viol { prop, also: vec![], sig: sig.into(), text }));
	}
	pub fn ancestor(&self, of: Hash, n: u32) -> Option<Hash> {
		let mut h = of;
		loop {
			let b = self.blocks.get(&h)?;
			if b.number == n {
				return Some(h)
			}
			if b.number < n || b.number == 0 {
				return None
			}
			h = b.parent;
		}
	}
	/// Authors on `parent`, judges the result and stores it.
	fn make(&mut self, node: usize, parent: &Arc<BlockRec>, time: u64, relay: u32, pool: &[Arc<Tx>]) -> Option<Arc<BlockRec>> {
		let b = match author(parent, time, relay, pool) {
			Ok(b) => b,
			Err(e) => {
				self.viol("C21", "author-panic", format!("building block {} panics: {}", parent.number + 1, e));
				return None
			},
		};
		if let Some(old) = self.blocks.get(&b.hash).cloned() {
			if old.state.map != b.state.map {
				self.viol("C21", "same-block", format!("block {} built twice with the same header has different states", b.number));
			}
			self.nodes[node].known.insert(old.hash, old.state.clone());
			crate::ocw::learn(self, node, old.hash);
			return Some(old)
		}
		let view = self.views[&parent.hash].clone();
		let hist = self.hists[&parent.hash].clone();
		let (blocks, ph) = (&self.blocks, parent.hash);
		let hash_at = |n: u32| -> Option<Hash> {
			let mut h = ph;
			loop {
				let b = blocks.get(&h)?;
				if b.number == n {
					return Some(h)
				}
				if b.number < n || b.number == 0 {
					return None
				}
				h = b.parent;
			}
		};
		let mut o = Oracle { pre: &view, parent, max_sigs: self.max_sigs, genesis: self.genesis, hash_at: &hash_at, hist, cov: &mut self.cov, out: vec![], ctx: vec![] };
		let (v, h) = o.block(&b);
		let out = o.out;
		for x in out {
			self.viols.push((self.step, x));
		}
		let b = Arc::new(b);
		self.views.insert(b.hash, v);
		self.hists.insert(b.hash, h);
		self.blocks.insert(b.hash, b.clone());
		let n = &mut self.nodes[node];
		n.known.insert(b.hash, b.state.clone());
		crate::ocw::learn(self, node, b.hash);
		Some(b)
	}
	/// The node hears of a block.
	fn receive(&mut self, node: usize, h: Hash) {
		if self.nodes[node].known.contains_key(&h) {
			return
		}
		let b = self.blocks[&h].clone();
		let Some(ps) = self.nodes[node].known.get(&b.parent).cloned() else {
			if !self.nodes[node].orphans.contains(&h) {
				self.nodes[node].orphans.push(h);
			}
			return
		};
		self.cov.add("blocks imported", 1);
		match import(&ps, &b) {
			Ok((st, index)) => {
				if st.map != b.state.map {
					self.viol("C21", "import-state", format!("importing block {} gives another state than building it", b.number));
				}
				if index != b.index {
					self.viol("C21", "import-index", format!("importing block {} writes other off-chain index entries than building it", b.number));
				}
				self.nodes[node].known.insert(h, st);
				crate::ocw::learn(self, node, h);
			},
			Err(e) => {
				self.viol("C21", "import-panic", format!("importing block {} panics: {}", b.number, e));
				return
			},
		}
		self.consider(node, h);
		let kids: Vec<Hash> = self.nodes[node].orphans.iter().copied().filter(|o| self.blocks[o].parent == h).collect();
		for k in kids {
			self.nodes[node].orphans.retain(|o| *o != k);
			self.receive(node, k);
		}
	}
	fn descends(&self, h: Hash, from: Hash) -> bool {
		self.ancestor(h, self.blocks[&from].number) == Some(from)
	}
	/// Moves the node's head when the block makes a longer chain.
	fn consider(&mut self, node: usize, h: Hash) {
		let old = self.nodes[node].head;
		if self.blocks[&h].number <= self.blocks[&old].number || !self.descends(h, self.finalized) {
			return
		}
		// retracted and enacted
		let (mut a, mut b) = (old, h);
		let (mut back, mut fwd) = (vec![], vec![]);
		while a != b {
			if self.blocks[&a].number >= self.blocks[&b].number {
				back.push(a);
				a = self.blocks[&a].parent;
			} else {
				fwd.push(b);
				b = self.blocks[&b].parent;
			}
		}
		if !back.is_empty() {
			self.cov.add("reorganisations", 1);
			let n = self.blocks[&old].number;
			let k = back.len();
			self.note(|| format!("node {} gives up {} blocks from {}", node, k, n));
		}
		let enacted: BTreeSet<Hash> = fwd.iter().flat_map(|h| self.blocks[h].xts.iter().map(|x| x.tx.id)).collect();
		let mut again: Vec<Arc<Tx>> = back.iter().rev().flat_map(|h| self.blocks[h].xts.iter().map(|x| x.tx.clone())).collect();
		let n = &mut self.nodes[node];
		again.append(&mut n.pool);
		again.retain(|t| !enacted.contains(&t.id));
		n.pool = again;
		n.head = h;
		crate::ocw::best(self, node, h);
	}
	fn broadcast(&mut self, from: usize, p: Packet) {
		for i in 0..self.nodes.len() {
			if i != from {
				self.net.push((from, i, p.clone()));
			}
		}
	}
	fn deliver(&mut self, i: usize, remove: bool) {
		let (from, to, p) = if remove { self.net.swap_remove(i) } else { self.net[i].clone() };
		if !self.nodes[to].up || self.nodes[from].side != self.nodes[to].side {
			self.cov.add("fault: packet lost to a partition or a dead node", 1);
			return
		}
		match p {
			Packet::Tx(t) => self.offer(to, t, false),
			Packet::Block(h) => {
				self.note(|| format!("block reaches node {}", to));
				self.receive(to, h)
			},
		}
	}
	/// A transaction reaches a node's pool.
	fn offer(&mut self, node: usize, t: Arc<Tx>, forced: bool) {
		let head = self.blocks[&self.nodes[node].head].clone();
		let mut ok = true;
		if self.pools {
			match validate(&head, &t) {
				Ok(got) => {
					ok = got.is_ok();
					let view = self.views[&head.hash].clone();
					let me = &*self;
					let hash_at = |n: u32| me.ancestor(head.hash, n);
					let mut cov = Cov::default();
					let mut o = Oracle { pre: &view, parent: &head, max_sigs: self.max_sigs, genesis: self.genesis, hash_at: &hash_at, hist: Default::default(), cov: &mut cov, out: vec![], ctx: vec![] };
					o.pooled(&head, &t, &got);
					let out = o.out;
					for x in out {
						self.viols.push((self.step, x));
					}
					self.cov.merge(&cov);
				},
				Err(e) => {
					let p = about(&t.xt.function);
					let text = format!("validating {} panics: {}", describe(&t.xt.function), e);
					self.viols.push((self.step, Viol { prop: p, also: related(&t.xt.function), sig: "validate-panic".into(), text: text.clone() }));
					self.viol("C21", "validate-panic", text);
				},
			}
		}
		if ok || forced {
			let pool = &mut self.nodes[node].pool;
			if !pool.iter().any(|x| x.id == t.id) || forced {
				pool.push(t);
			}
		}
	}
	fn alive(&self, r: u64) -> Option<usize> {
		let up: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].up).collect();
		if up.is_empty() {
			None
		} else {
			Some(up[(r % up.len() as u64) as usize])
		}
	}
	pub fn run(&mut self, ops: &[Op]) {
		for (i, op) in ops.iter().enumerate() {
			self.step = i + 1;
			self.op(op);
		}
		self.step = ops.len() + 1;
		self.settle();
	}
	fn tx_for(&mut self, node: usize, seed: u64) -> Arc<Tx> {
		let head = self.blocks[&self.nodes[node].head].clone();
		let view = self.views[&head.hash].clone();
		let me = &*self;
		let hash_at = |n: u32| me.ancestor(head.hash, n);
		let pool = &self.nodes[node].pool;
		let pending = |a: &Acc| {
			let mut n = view.nonce(a);
			for t in pool.iter().filter(|t| &signer(t) == a) {
				if let Some((_, _, x)) = &t.xt.signature {
					if crate::model::validity::extra(x).1 == n {
						n += 1
					}
				}
			}
			n
		};
		let c = Ctx {
			v: &view,
			n: head.number + 1,
			relay: head.relay,
			genesis: self.genesis,
			hash_at: &hash_at,
			w: &self.p.w,
			bad: self.p.bad,
			bases: self.p.bases,
			hot: self.p.hot,
			crowd: self.p.crowd,
			bank: &self.bank,
			sent: &self.sent,
			pending: &pending,
		};
		let t = Tx::new(gen::tx(seed, &c));
		if self.bank.len() < 60 {
			gen::carries(&t.xt.function, &mut self.bank);
		}
		if self.sent.len() < 60 {
			self.sent.push(t.xt.clone());
		}
		t
	}
	fn author_op(&mut self, node: usize, r: u64) {
		let mut g = Rng::new(r);
		let mut head = self.blocks[&self.nodes[node].head].clone();
		let fork = self.nodes.len() > 1 && !self.p.single && g.pct(8) && head.number > self.blocks[&self.finalized].number && head.number > 5;
		if fork {
			self.cov.add("fault: competing block", 1);
			head = self.blocks[&head.parent].clone();
		}
		let mut pool = self.nodes[node].pool.clone();
		match g.below(5) {
			0 => g.shuffle(&mut pool),
			1 => pool.reverse(),
			_ => (),
		}
		if g.pct(15) && !pool.is_empty() {
			let k = g.idx(pool.len() + 1);
			pool.truncate(k);
			self.cov.add("fault: block cut short", 1);
		}
		let time = head.time
			+ if g.pct(5) {
				self.cov.add("fault: clock jump", 1);
				g.range(12_000, 100_000_000)
			} else {
				12_000
			};
		let relay = head.relay.saturating_add(if g.pct(6) {
			self.cov.add("fault: relay chain jump", 1);
			g.range(1, 300) as u32
		} else {
			g.range(1, 4) as u32
		});
		let Some(b) = self.make(node, &head, time, relay, &pool) else {
			self.nodes[node].pool.clear();
			return
		};
		self.note(|| {
			let mut s = format!("node {} builds block {}{}", node, b.number, if fork { " (competing)" } else { "" });
			for x in &b.xts {
				s += &format!("\n       {} {} -> {:?}", name(&signer(&x.tx)), describe(&x.tx.xt.function), x.res);
			}
			for x in &b.refused {
				s += &format!("\n       refused {:?}: {} {}", x.err, name(&signer(&x.tx)), describe(&x.tx.xt.function));
			}
			s
		});
		let done: BTreeSet<Hash> = b.xts.iter().map(|x| x.tx.id).collect();
		let keep: BTreeSet<Hash> = b
			.refused
			.iter()
			.filter(|x| {
				use simsdk::sp_runtime::transaction_validity::*;
				matches!(x.err, TransactionValidityError::Invalid(InvalidTransaction::Future | InvalidTransaction::ExhaustsResources)) && g.pct(70)
			})
			.map(|x| x.tx.id)
			.collect();
		let refused: BTreeSet<Hash> = b.refused.iter().map(|x| x.tx.id).chain(b.panics.iter().map(|p| p.0.id)).collect();
		let h = b.hash;
		if fork {
			// the node itself sticks to its chain until this one is longer
			self.consider(node, h);
		} else {
			let n = &mut self.nodes[node];
			n.pool.retain(|t| !done.contains(&t.id) && (!refused.contains(&t.id) || keep.contains(&t.id)));
			n.head = h;
			crate::ocw::best(self, node, h);
		}
		self.broadcast(node, Packet::Block(h));
	}
	fn op(&mut self, op: &Op) {
		let r = op.r;
		let mut g = Rng::new(r);
		let Some(node) = self.alive(g.next()) else {
			self.restart(0);
			return
		};
		let node = match op.kind {
			AUTHOR | SKIP if self.p.single && self.nodes[0].up => 0,
			AUTHOR | SKIP if self.p.single => return,
			_ => node,
		};
		self.cov.add(format!("op: {}", OP_NAMES[op.kind as usize]), 1);
		match op.kind {
			SUBMIT => {
				let t = self.tx_for(node, g.next());
				self.note(|| format!("node {} gets {} {}", node, name(&signer(&t)), describe(&t.xt.function)));
				self.offer(node, t.clone(), g.pct(30));
				self.broadcast(node, Packet::Tx(t));
			},
			DELIVER if !self.net.is_empty() => {
				let i = g.idx(self.net.len());
				self.deliver(i, true);
			},
			DROP if !self.net.is_empty() => {
				let i = g.idx(self.net.len());
				self.net.swap_remove(i);
				self.cov.add("fault: packet dropped", 1);
			},
			DUP if !self.net.is_empty() => {
				let i = g.idx(self.net.len());
				self.deliver(i, false);
				self.cov.add("fault: packet duplicated", 1);
			},
			AUTHOR => self.author_op(node, g.next()),
			SKIP => {
				let k = g.range(1, self.p.skip.max(1));
				self.note(|| format!("node {} builds {} empty blocks", node, k));
				for _ in 0..k {
					let head = self.blocks[&self.nodes[node].head].clone();
					let Some(b) = self.make(node, &head, head.time + 12_000, head.relay + 1, &[]) else { break };
					self.nodes[node].head = b.hash;
					crate::ocw::best(self, node, b.hash);
				}
				let h = self.nodes[node].head;
				self.announce(node, h);
			},
			CRASH => {
				self.cov.add("fault: crash", 1);
				self.note(|| format!("node {} crashes", node));
				let n = &mut self.nodes[node];
				n.up = false;
				n.pool.clear();
				n.orphans.clear();
				self.net.retain(|x| x.1 != node);
				crate::ocw::crash(self, node);
			},
			RESTART => {
				if let Some(d) = (0..self.nodes.len()).find(|i| !self.nodes[*i].up) {
					self.restart(d);
				}
			},
			PARTITION => {
				self.cov.add("fault: partition", 1);
				for n in self.nodes.iter_mut() {
					n.side = g.below(2) as u8;
				}
			},
			HEAL => self.heal(),
			FINALIZE => {
				// what all nodes share
				let depth = g.below(6) as u32;
				let h = self.blocks[&self.nodes[node].head].number.saturating_sub(depth);
				if let Some(a) = self.ancestor(self.nodes[node].head, h) {
					if self.descends(a, self.finalized) && self.nodes.iter().all(|n| self.descends(n.head, a)) {
						self.finalized = a;
						self.cov.add("finalized", 1);
					}
				}
			},
			OCW => crate::ocw::op(self, node, g.next()),
			QUERY => crate::query::op(self, node, g.next()),
			UPGRADE => crate::upgrade::op(self, node, g.next()),
			_ => (),
		}
	}
	fn restart(&mut self, node: usize) {
		self.nodes[node].up = true;
		self.note(|| format!("node {} restarts", node));
		// the durable state is all it has: what is derived from it must be the same
		let h = self.nodes[node].head;
		if View::of(&self.nodes[node].known[&h]) != self.views[&h] {
			self.viol("C21", "restart", "the view of a restarted node differs".into());
		}
	}
	/// Blocks up to `h` are sent to everybody.
	fn announce(&mut self, node: usize, h: Hash) {
		let mut l = vec![];
		let mut x = h;
		while self.blocks[&x].number > 4 {
			if self.nodes.iter().all(|n| n.known.contains_key(&x)) {
				break
			}
			l.push(x);
			x = self.blocks[&x].parent;
		}
		for h in l.into_iter().rev() {
			self.broadcast(node, Packet::Block(h));
		}
	}
	fn heal(&mut self) {
		self.cov.add("heals", 1);
		for n in self.nodes.iter_mut() {
			n.side = 0;
		}
		for i in 0..self.nodes.len() {
			if !self.nodes[i].up {
				continue
			}
			let heads: Vec<Hash> = self.nodes.iter().filter(|n| n.up).map(|n| n.head).collect();
			for h in heads {
				self.sync(i, h);
			}
		}
	}
	/// Fetches whatever is missing up to a block.
	fn sync(&mut self, node: usize, h: Hash) {
		let mut l = vec![];
		let mut x = h;
		while !self.nodes[node].known.contains_key(&x) {
			l.push(x);
			x = self.blocks[&x].parent;
		}
		for x in l.into_iter().rev() {
			self.receive(node, x);
		}
	}
	/// One more empty block, which every node gets.
	pub fn extend(&mut self) -> bool {
		let head = self.blocks[&self.nodes[0].head].clone();
		let Some(b) = self.make(0, &head, head.time + 12_000, head.relay + 1, &[]) else { return false };
		self.nodes[0].head = b.hash;
		crate::ocw::best(self, 0, b.hash);
		for i in 1..self.nodes.len() {
			self.receive(i, b.hash);
		}
		self.nodes.iter().all(|n| n.head == b.hash)
	}
	/// The faults stop: all nodes agree, and what can be included is.
	fn settle(&mut self) {
		for i in 0..self.nodes.len() {
			if !self.nodes[i].up {
				self.restart(i);
			}
		}
		self.heal();
		let k = (0..self.nodes.len()).max_by_key(|i| self.blocks[&self.nodes[*i].head].number).unwrap();
		for _ in 0..2 {
			let head = self.blocks[&self.nodes[k].head].clone();
			let pool = self.nodes[k].pool.clone();
			let Some(b) = self.make(k, &head, head.time + 12_000, head.relay + 1, &pool) else { break };
			let done: BTreeSet<Hash> = b.xts.iter().map(|x| x.tx.id).collect();
			self.nodes[k].pool.retain(|t| !done.contains(&t.id));
			self.nodes[k].head = b.hash;
			crate::ocw::best(self, k, b.hash);
			self.note(|| format!("last: block {}", b.number));
		}
		self.heal();
		let h = self.nodes[k].head;
		for i in 0..self.nodes.len() {
			if self.nodes[i].head != h {
				let t = format!("node {} ends at block {}, node {} at {}", i, self.blocks[&self.nodes[i].head].number, k, self.blocks[&h].number);
				self.viol("C21", "diverged", t);
			}
		}
		crate::ocw::finish(self);
		crate::query::finish(self);
	}
}
