//! Off-chain workers: every host call is a point where the scheduler may switch, stall or kill.
//!
//! A suspended worker is resumed by running it again on the same block state with the recorded answers of the host
//! calls it already made; what it wrote to the node's database stays written.
use crate::chain::*;
use crate::rng::Rng;
use crate::world::World;
use frequency_runtime::{Executive, RuntimeEvent};
use pallet_msa::offchain_storage as off;
use simsdk::codec::Decode;
use simsdk::sp_core::offchain::{HttpError, HttpRequestId, HttpRequestStatus, StorageKind, Timestamp};
use simsdk::sp_io::offchain::{with_host, OffchainHost};
use simsdk::storage::{self, IndexOp};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Debug)]
enum Res {
	Opt(Option<Vec<u8>>),
	Unit,
	Flag(bool),
	Time(u64),
	Id(Result<u16, ()>),
	Http(Result<(), HttpError>),
	Wait(Vec<HttpRequestStatus>),
	Read(Result<Vec<u8>, HttpError>),
}
/// What the node's database sees.
enum Seen {
	Locked(Vec<u8>),
	Cleared(Vec<u8>),
	/// while the keys are taken over from the state or not
	Set(Vec<u8>, bool),
}
pub struct Worker {
	id: u64,
	pub block: Hash,
	number: u32,
	log: Vec<(&'static str, Res)>,
	body: Vec<u8>,
	wake: u64,
	/// locks it believes to hold, and since when
	locks: BTreeMap<Vec<u8>, u64>,
	/// lost a lock after it rightly expired
	zombie: bool,
}
#[derive(Default)]
pub struct NodeOcw {
	pub db: Map,
	pub clock: u64,
	pub workers: Vec<Worker>,
	heights: BTreeMap<u32, Vec<Hash>>,
	/// heads at which keys were taken over from the state
	initial: BTreeSet<Hash>,
	/// MSAs that a listed defect may have spoiled
	forked: BTreeSet<u64>,
	stale: BTreeSet<u64>,
	calls: u64,
	wrong: bool,
	back: bool,
}
#[derive(Default)]
pub struct Ocw {
	pub on: bool,
	/// number of the first block at which workers are started
	pub start: u32,
	pub nodes: Vec<NodeOcw>,
	pub next: u64,
}
struct Suspend;
struct Host {
	log: RefCell<Vec<(&'static str, Res)>>,
	pos: Cell<usize>,
	left: Cell<u64>,
	db: RefCell<Map>,
	clock: Cell<u64>,
	wake: Cell<u64>,
	body: RefCell<Vec<u8>>,
	rng: RefCell<Rng>,
	calm: bool,
	/// answers to the question for the finalized block
	fin: Vec<Hash>,
	seen: RefCell<Vec<Seen>>,
	off: Cell<bool>,
	diverged: Cell<bool>,
	faults: RefCell<Vec<&'static str>>,
	asked: Cell<bool>,
}
impl Host {
	fn call(&self, name: &'static str, fresh: impl FnOnce() -> Res) -> Res {
		if self.off.get() {
			// only destructors run now
			return Res::Unit
		}
		let p = self.pos.get();
		if let Some((n, r)) = self.log.borrow().get(p) {
			if *n != name {
				self.diverged.set(true);
			}
			self.pos.set(p + 1);
			return r.clone()
		}
		if self.left.get() == 0 || self.wake.get() > self.clock.get() {
			self.off.set(true);
			std::panic::resume_unwind(Box::new(Suspend))
		}
		self.left.set(self.left.get() - 1);
		self.clock.set(self.clock.get() + 1);
		let r = fresh();
		self.log.borrow_mut().push((name, r.clone()));
		self.pos.set(p + 1);
		r
	}
	fn fault(&self, pct: u64, what: &'static str) -> bool {
		if self.calm || !self.rng.borrow_mut().pct(pct) {
			return false
		}
		self.faults.borrow_mut().push(what);
		true
	}
}
fn key(kind: StorageKind, k: &[u8]) -> Vec<u8> {
	let mut v = vec![kind as u8];
	v.extend_from_slice(k);
	v
}
fn msa_of(k: &[u8]) -> Option<u64> {
	let p = common_primitives::offchain::MSA_ACCOUNT_STORAGE_NAME_PREFIX;
	std::str::from_utf8(k.strip_prefix(&p[..])?).ok()?.parse().ok()
}
impl OffchainHost for Host {
	fn get(&self, kind: StorageKind, k: &[u8]) -> Option<Vec<u8>> {
		match self.call("get", || Res::Opt(self.db.borrow().get(&key(kind, k)).cloned())) {
			Res::Opt(o) => o,
			_ => None,
		}
	}
	fn set(&self, kind: StorageKind, k: &[u8], v: &[u8]) {
		self.call("set", || {
			self.db.borrow_mut().insert(key(kind, k), v.to_vec());
			let first = !self.db.borrow().contains_key(&key(StorageKind::PERSISTENT, off::MSA_INITIAL_INDEXED_STORAGE_NAME));
			self.seen.borrow_mut().push(Seen::Set(k.to_vec(), first));
			Res::Unit
		});
	}
	fn clear(&self, kind: StorageKind, k: &[u8]) {
		self.call("clear", || {
			self.db.borrow_mut().remove(&key(kind, k));
			self.seen.borrow_mut().push(Seen::Cleared(k.to_vec()));
			Res::Unit
		});
	}
	fn cas(&self, kind: StorageKind, k: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		let r = self.call("cas", || {
			let ok = self.db.borrow().get(&key(kind, k)).cloned() == old;
			if ok {
				self.db.borrow_mut().insert(key(kind, k), new.to_vec());
				self.seen.borrow_mut().push(Seen::Locked(k.to_vec()));
			}
			Res::Flag(ok)
		});
		matches!(r, Res::Flag(true))
	}
	fn timestamp(&self) -> Timestamp {
		match self.call("timestamp", || Res::Time(self.clock.get())) {
			Res::Time(t) => Timestamp::from_unix_millis(t),
			_ => Timestamp::from_unix_millis(0),
		}
	}
	fn sleep_until(&self, t: Timestamp) {
		self.call("sleep", || {
			self.wake.set(t.unix_millis());
			Res::Unit
		});
	}
	fn http_start(&self, method: &str, uri: &str) -> Result<HttpRequestId, ()> {
		let ok = method == "POST" && uri == off::RPC_FINALIZED_BLOCK_REQUEST_URL;
		let r = self.call("http start", || {
			self.body.borrow_mut().clear();
			self.asked.set(false);
			Res::Id(if !ok || self.fault(3, "HTTP request cannot be started") { Err(()) } else { Ok(1) })
		});
		match r {
			Res::Id(r) => r.map(HttpRequestId),
			_ => Err(()),
		}
	}
	fn http_header(&self, _: HttpRequestId, _: &str, _: &str) -> Result<(), ()> {
		Ok(())
	}
	fn http_write(&self, _: HttpRequestId, chunk: &[u8], _: Option<Timestamp>) -> Result<(), HttpError> {
		match self.call("http write", || Res::Http(if self.fault(2, "HTTP write error") { Err(HttpError::IoError) } else { Ok(()) })) {
			Res::Http(r) => {
				if chunk == &off::RPC_FINALIZED_BLOCK_REQUEST_BODY[..] {
					self.asked.set(true);
				}
				r
			},
			_ => Err(HttpError::Invalid),
		}
	}
	fn http_wait(&self, ids: &[HttpRequestId], d: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		let r = self.call("http wait", || {
			if self.fault(6, "HTTP deadline reached") {
				if let Some(d) = d {
					self.clock.set(self.clock.get().max(d.unix_millis()));
				}
				return Res::Wait(ids.iter().map(|_| HttpRequestStatus::DeadlineReached).collect())
			}
			if self.fault(3, "HTTP connection error") {
				return Res::Wait(ids.iter().map(|_| HttpRequestStatus::IoError).collect())
			}
			self.clock.set(self.clock.get() + 20);
			let mut code = 200;
			let late = !self.calm && self.rng.borrow_mut().pct(20);
			let h = if late { self.fin[self.rng.borrow_mut().idx(self.fin.len())] } else { self.fin[0] };
			let mut text = format!("{{\"jsonrpc\":\"2.0\",\"result\":\"0x{}\",\"id\":10}}", hex(&h));
			if !self.asked.get() {
				text = "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":-32700,\"message\":\"Parse error\"}}".into();
			} else if self.fault(3, "HTTP status 500 with a body") {
				code = 500;
			} else if self.fault(2, "HTTP body is not JSON") {
				text = "<html>bad gateway</html>".into();
			} else if self.fault(2, "HTTP body cut off") {
				text.truncate(40);
			} else if self.fault(2, "HTTP body with a wrong hash") {
				text = text.replace("0x", "0xff");
			} else if self.fault(2, "HTTP body with an unknown hash") {
				text = format!("{{\"jsonrpc\":\"2.0\",\"result\":\"0x{}\",\"id\":10}}", "5a".repeat(32));
			}
			*self.body.borrow_mut() = text.into_bytes();
			Res::Wait(ids.iter().map(|_| HttpRequestStatus::Finished(code)).collect())
		});
		match r {
			Res::Wait(v) => v,
			_ => vec![],
		}
	}
	fn http_read(&self, _: HttpRequestId, buf: &mut [u8], _: Option<Timestamp>) -> Result<u32, HttpError> {
		let room = buf.len();
		let r = self.call("http read", || {
			if self.fault(2, "HTTP read error") {
				return Res::Read(Err(HttpError::IoError))
			}
			let mut b = self.body.borrow_mut();
			let all = b.len().min(room);
			let n = if self.calm || all == 0 { all } else { self.rng.borrow_mut().range(1, all as u64) as usize };
			Res::Read(Ok(b.drain(..n).collect()))
		});
		match r {
			Res::Read(Ok(v)) => {
				buf[..v.len()].copy_from_slice(&v);
				Ok(v.len() as u32)
			},
			Res::Read(Err(e)) => Err(e),
			_ => Err(HttpError::Invalid),
		}
	}
}
fn hex(h: &Hash) -> String {
	h.0.iter().map(|b| format!("{:02x}", b)).collect()
}
/// MSAs whose keys a block touches.
fn touched(w: &World, h: Hash) -> BTreeSet<u64> {
	let b = &w.blocks[&h];
	let mut at: BTreeMap<Acc, u64> = w.views.get(&b.parent).map(|v| v.msa.keys.clone()).unwrap_or_default();
	let mut o = BTreeSet::new();
	for e in b.xts.iter().flat_map(|x| x.events.iter()).chain(b.sys_events.iter()) {
		match e {
			RuntimeEvent::Msa(pallet_msa::Event::MsaCreated { msa_id, key }) | RuntimeEvent::Msa(pallet_msa::Event::PublicKeyAdded { msa_id, key }) => {
				at.insert(key.clone(), *msa_id);
				o.insert(*msa_id);
			},
			RuntimeEvent::Msa(pallet_msa::Event::PublicKeyDeleted { key }) => {
				if let Some(m) = at.remove(key) {
					o.insert(m);
				}
			},
			_ => (),
		}
	}
	o
}
/// A node executed a block: its off-chain index entries are written, whether or not the block is on the best chain.
pub fn learn(w: &mut World, node: usize, h: Hash) {
	if !w.ocw.on {
		return
	}
	let b = w.blocks[&h].clone();
	let n = &mut w.ocw.nodes[node];
	let l = n.heights.entry(b.number).or_default();
	if l.contains(&h) {
		return
	}
	l.push(h);
	let several = if l.len() > 1 { l.clone() } else { vec![] };
	n.clock = n.clock.max(b.time);
	for i in &b.index {
		match i {
			IndexOp::Set(k, v) => n.db.insert(key(StorageKind::PERSISTENT, k), v.clone()),
			IndexOp::Clear(k) => n.db.remove(&key(StorageKind::PERSISTENT, k)),
		};
	}
	for h in several {
		let t = touched(w, h);
		w.ocw.nodes[node].forked.extend(t);
	}
}
/// A block became the node's best.
pub fn best(w: &mut World, node: usize, h: Hash) {
	if !w.ocw.on || w.blocks[&h].number < w.ocw.start {
		return
	}
	let number = w.blocks[&h].number;
	if w.ocw.nodes[node].workers.len() >= 12 {
		w.cov.add("fault: worker not started", 1);
		return
	}
	w.ocw.next += 1;
	let id = w.ocw.next;
	w.ocw.nodes[node].workers.push(Worker { id, block: h, number, log: vec![], body: vec![], wake: 0, locks: BTreeMap::new(), zombie: false });
}
/// Lets a worker go on for some host calls.
fn step(w: &mut World, node: usize, k: usize, budget: u64, seed: u64, calm: bool) {
	let fin: Vec<Hash> = {
		let mut l = vec![w.finalized];
		for _ in 0..3 {
			let b = &w.blocks[l.last().unwrap()];
			if b.number > 1 {
				l.push(b.parent);
			}
		}
		l
	};
	let n = &mut w.ocw.nodes[node];
	let mut me = n.workers.remove(k);
	let b = w.blocks[&me.block].clone();
	if me.wake > n.clock {
		n.clock = me.wake;
	}
	let before = me.log.len();
	let host = Rc::new(Host {
		log: RefCell::new(std::mem::take(&mut me.log)),
		pos: Cell::new(0),
		left: Cell::new(budget),
		db: RefCell::new(std::mem::take(&mut n.db)),
		clock: Cell::new(n.clock),
		wake: Cell::new(me.wake),
		body: RefCell::new(std::mem::take(&mut me.body)),
		rng: RefCell::new(Rng::new(seed)),
		calm,
		fin,
		seen: Default::default(),
		off: Cell::new(false),
		diverged: Cell::new(false),
		faults: Default::default(),
		asked: Cell::new(false),
	});
	let (h2, st, header) = (host.clone(), b.state.clone(), b.header.clone());
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with_host(h2, || storage::query(&st, || Executive::offchain_worker(&header)))));
	let host = Rc::try_unwrap(host).ok().expect("host is not shared");
	n.db = host.db.into_inner();
	n.clock = host.clock.get();
	me.log = host.log.into_inner();
	me.body = host.body.into_inner();
	me.wake = host.wake.get();
	n.calls += (me.log.len() - before) as u64;
	let fresh = (me.log.len() - before) as u64;
	let mut notes: Vec<String> = vec![];
	let mut trace: Vec<String> = vec![];
	for s in host.seen.into_inner() {
		{
			let t = match &s {
				Seen::Locked(k) => format!("locks {}", String::from_utf8_lossy(k)),
				Seen::Cleared(k) => format!("clears {}", String::from_utf8_lossy(k)),
				Seen::Set(k, f) => format!("sets {}{}", String::from_utf8_lossy(k), if *f { " (initial)" } else { "" }),
			};
			trace.push(format!("node {}: the worker of block {} {}", node, b.number, t));
		}
		match s {
			Seen::Locked(k) => {
				let (num, now) = (me.number, n.clock);
				for o in n.workers.iter_mut() {
					if let Some(t) = o.locks.get(&k).copied() {
						o.locks.remove(&k);
						if me.zombie || (now > t + 3000 && num > o.number + 20) {
							o.zombie = true;
							notes.push("lock taken over from a stalled worker".into());
						} else {
							notes.push("lock taken over while it is held".into());
						}
					}
				}
				me.locks.insert(k, n.clock);
			},
			Seen::Cleared(k) => {
				me.locks.remove(&k);
				if me.zombie {
					for o in n.workers.iter_mut() {
						if o.locks.remove(&k).is_some() {
							o.zombie = true;
						}
					}
				}
			},
			Seen::Set(k, first) => {
				// a stalled worker moves it back; what follows is done again
				n.back |= me.zombie && k == off::LAST_PROCESSED_BLOCK_STORAGE_NAME;
				if let Some(m) = msa_of(&k) {
					if first {
						n.initial.insert(me.block);
					}
					if me.zombie {
						n.stale.insert(m);
					}
				}
			},
		}
	}
	let tail: Vec<String> = me.log.iter().rev().take(6).map(|x| format!("{:?}", x)).collect();
	let mut over = false;
	let mut panicked = None;
	match r {
		Ok(()) => over = true,
		Err(e) if e.is::<Suspend>() => (),
		Err(e) => {
			over = true;
			panicked = Some(panic_text(e));
		},
	}
	if !over {
		n.workers.push(me);
	}
	for t in trace {
		w.note(|| t);
	}
	w.cov.add("index: host calls", fresh);
	for f in host.faults.into_inner() {
		w.cov.add(format!("fault: {}", f), 1);
	}
	for t in notes {
		w.cov.add(format!("fault: {}", t), 1);
	}
	if host.diverged.get() {
		w.viol("C21", "ocw-repeat", format!("the off-chain worker of block {} does not repeat itself", b.number));
	}
	if let Some(p) = panicked {
		w.viol("C05", "panic", format!("node {}: the off-chain worker of block {} panics: {}", node, b.number, p));
	}
	if over {
		w.cov.add("index: workers finished", 1);
		w.note(|| format!("node {}: the worker of block {} ends {:?}", node, b.number, tail));
		quiet(w, node);
	}
}
fn reached(n: &NodeOcw) -> Option<u32> {
	let v = n.db.get(&key(StorageKind::PERSISTENT, off::LAST_PROCESSED_BLOCK_STORAGE_NAME))?;
	u32::decode(&mut &v[..]).ok()
}
/// What the index of a node answers, through the RPC handler.
fn answers(n: &NodeOcw, top: u64) -> Result<BTreeMap<u64, BTreeSet<Acc>>, String> {
	let db = crate::query::Db(Arc::new(n.db.iter().filter(|x| x.0[0] == StorageKind::PERSISTENT as u8).map(|(k, v)| (k[1..].to_vec(), v.clone())).collect()));
	let mut o = BTreeMap::new();
	for m in 1..=top {
		let a = crate::query::keys_of(&db, m)?;
		if let Some(l) = a {
			let s: BTreeSet<Acc> = l.iter().cloned().collect();
			if s.len() != l.len() {
				return Err(format!("MSA {} has a key twice", m))
			}
			if !s.is_empty() {
				o.insert(m, s);
			}
		}
	}
	Ok(o)
}
/// Compares the index with the block it reached; a worker that was cut short may have taken over more of the next block.
fn compare(w: &mut World, node: usize, at: Hash, next: Option<Hash>) {
	let v = &w.views[&at];
	let mut want: BTreeMap<u64, BTreeSet<Acc>> = BTreeMap::new();
	for (k, m) in &v.msa.keys {
		want.entry(*m).or_default().insert(k.clone());
	}
	let (num, top) = (w.blocks[&at].number, w.blocks.values().filter_map(|b| w.views.get(&b.hash)).map(|v| v.msa.max_id).max().unwrap_or(0));
	w.cov.add("index: comparisons", 1);
	let got = match answers(&w.ocw.nodes[node], top) {
		Ok(a) => a,
		Err(e) => {
			w.viol("C05", "unreadable", format!("node {}: the index cannot be read: {}", node, e));
			return
		},
	};
	let empty = BTreeSet::new();
	let ahead = |m: u64| -> Option<BTreeSet<Acc>> { Some(w.views.get(&next?)?.msa.keys.iter().filter(|x| *x.1 == m).map(|x| x.0.clone()).collect()) };
	for m in 1..=top {
		let (a, b) = (want.get(&m).unwrap_or(&empty), got.get(&m).unwrap_or(&empty));
		if a == b || ahead(m).as_ref() == Some(b) {
			continue
		}
		let n = &w.ocw.nodes[node];
		let sig = if n.forked.contains(&m) {
			"competing-blocks"
		} else if n.stale.contains(&m) {
			"stalled-worker"
		} else {
			"index"
		};
		let t = format!("node {}: the index reached block {} and has the keys {:?} for MSA {} instead of {:?}", node, num, b.iter().map(crate::oracle::name).collect::<Vec<_>>(), m, a.iter().map(crate::oracle::name).collect::<Vec<_>>());
		w.viol("C05", sig, t);
		w.ocw.nodes[node].wrong = true;
		return
	}
}
/// Between workers, the index is what the block it reached says.
fn quiet(w: &mut World, node: usize) {
	let n = &w.ocw.nodes[node];
	if n.wrong || n.back || !n.workers.iter().all(|w| w.log.is_empty()) || !n.stale.is_empty() {
		return
	}
	if !n.db.contains_key(&key(StorageKind::PERSISTENT, off::MSA_INITIAL_INDEXED_STORAGE_NAME)) {
		return
	}
	let Some(r) = reached(n) else { return };
	let first = n.initial.iter().map(|h| w.blocks[h].number).max().unwrap_or(0);
	if r < first || r > w.blocks[&w.finalized].number || r < 1 {
		return
	}
	if let Some(h) = w.ancestor(w.finalized, r) {
		let next = w.ancestor(w.finalized, r + 1);
		compare(w, node, h, next);
	}
}
pub fn op(w: &mut World, node: usize, r: u64) {
	if !w.ocw.on {
		return
	}
	let mut g = Rng::new(r);
	let k = w.ocw.nodes[node].workers.len();
	if k == 0 {
		return
	}
	let (k, budget) = match g.below(10) {
		0..=5 => (0, 10_000),
		6 | 7 => (g.idx(k), g.range(1, 30)),
		8 => (g.idx(k), 10_000),
		_ => {
			w.cov.add("fault: clock jump of a node", 1);
			let j = g.range(1, 9000);
			w.ocw.nodes[node].clock += j;
			(g.idx(k), g.range(1, 10))
		},
	};
	step(w, node, k, budget, g.next(), false);
}
pub fn crash(w: &mut World, node: usize) {
	if !w.ocw.on {
		return
	}
	w.note(|| format!("node {}: its off-chain workers are gone", node));
	let n = &mut w.ocw.nodes[node];
	let busy = n.workers.iter().filter(|w| !w.log.is_empty()).count() as u64;
	n.workers.clear();
	w.cov.add("fault: crash inside an off-chain worker", busy);
}
/// Faults are over: within a bounded number of blocks every index has reached the finalized chain.
pub fn finish(w: &mut World) {
	if !w.ocw.on {
		return
	}
	let mut late = vec![];
	// finality may stay behind the best block for good
	let any = w.nodes[0].head.0[0] as u32;
	let lag = if any % 2 == 0 { 0 } else { (any / 2) % 26 };
	if lag > 0 {
		w.cov.add("index: finality stays behind in the end", 1);
	}
	for i in 0..70 {
		for n in 0..w.nodes.len() {
			w.ocw.nodes[n].clock += 12_000;
			for _ in 0..1000 {
				if w.ocw.nodes[n].workers.is_empty() {
					break
				}
				step(w, n, 0, 10_000, 0, true);
			}
			if !w.ocw.nodes[n].workers.is_empty() {
				w.viol("C05", "endless", format!("node {}: an off-chain worker does not end", n));
				return
			}
		}
		let fin = w.blocks[&w.finalized].number;
		late = (0..w.nodes.len()).filter(|n| reached(&w.ocw.nodes[*n]).map(|r| r < fin).unwrap_or(true)).collect();
		// what was indexed initially is the state of the worker's block, which may not be final yet
		let young = w.ocw.nodes.iter().any(|n| n.initial.iter().any(|h| w.blocks[h].number > fin));
		if i > 2 && late.is_empty() && !young {
			break
		}
		let head = w.nodes[0].head;
		if w.blocks[&head].number > fin + lag {
			w.finalized = w.ancestor(head, w.blocks[&head].number - lag).unwrap_or(head);
		}
		if !w.extend() {
			return
		}
	}
	for n in late {
		let t = format!("node {}: 70 blocks after the last fault the index is at {:?} of {}", n, reached(&w.ocw.nodes[n]), w.blocks[&w.finalized].number);
		w.viol("C05", "stuck", t);
	}
	for n in 0..w.nodes.len() {
		if let Some(h) = reached(&w.ocw.nodes[n]).and_then(|r| w.ancestor(w.finalized, r)) {
			compare(w, n, h, None);
		}
	}
}
