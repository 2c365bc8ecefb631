//! The simulated node: clock, executor, transaction pool and chain.
use crate::{CreatedBlock, EngineCommand};
use futures::channel::mpsc;
use futures::future::LocalBoxFuture;
use futures::task::{waker, ArcWake};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub type Hash = u64;
pub type Tx = u32;
#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
	pub hash: Hash,
	pub parent: Hash,
	pub number: u64,
	pub txs: Vec<Tx>,
	pub time: u64,
	pub finalized: bool,
	/// was finalized as it was imported
	pub sealed_final: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
	/// no block can be begun
	Init,
	Inherents,
	Propose,
	/// the import queue says no
	Import,
	/// best chain unknown
	Best,
	/// the proposal includes none of the waiting transactions (they do not fit)
	Full,
	/// building the block takes so long (ms)
	Slow(u64),
}
struct Flag(AtomicBool);
impl ArcWake for Flag {
	fn wake_by_ref(a: &Arc<Self>) {
		a.0.store(true, Ordering::Relaxed)
	}
}
struct Task {
	name: String,
	essential: bool,
	f: LocalBoxFuture<'static, ()>,
	flag: Arc<Flag>,
}
#[derive(Default)]
pub struct World {
	pub now: u64,
	rng: u64,
	serial: u64,
	timers: Vec<(u64, Waker)>,
	pub ready: Vec<Tx>,
	/// waiting for another transaction
	pub future: BTreeMap<Tx, Tx>,
	pub sinks: Vec<mpsc::UnboundedSender<Tx>>,
	pub notified: u64,
	pub blocks: Vec<Blk>,
	pub best: Hash,
	pub finalized: Hash,
	pub faults: VecDeque<Fault>,
	/// faults that took effect
	pub hit: Vec<Fault>,
	/// justification given with a finalization
	pub justified: Vec<(Hash, [u8; 4], Vec<u8>)>,
	pub authority: bool,
	pub offchain: bool,
	pub offchain_runs: u32,
	pub rpc: Option<crate::rpc::Module>,
	pub network_started: bool,
	/// essential tasks that ended
	pub ended: Vec<String>,
	/// a block is being built, slowly
	pub busy: bool,
	/// fork switches
	pub switches: u64,
}
thread_local! {
	static W: RefCell<World> = RefCell::new(World::default());
	static TASKS: RefCell<Vec<Task>> = const { RefCell::new(vec![]) };
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
	W.with(|w| f(&mut w.borrow_mut()))
}
pub fn reset(seed: u64) {
	TASKS.with(|t| t.borrow_mut().clear());
	let old = with(|w| std::mem::take(w));
	drop(old);
	with(|w| {
		w.rng = seed | 1;
		w.now = 1_700_000_000_000;
		w.blocks.push(Blk { hash: 1, parent: 0, number: 0, txs: vec![], time: w.now, finalized: true, sealed_final: true });
		w.best = 1;
		w.finalized = 1;
	})
}
/// the node goes down: only the chain survives
pub fn crash() {
	TASKS.with(|t| t.borrow_mut().clear());
	let old = with(|w| {
		w.ready.clear();
		w.future.clear();
		w.ended.clear();
		w.offchain_runs = 0;
		w.busy = false;
		w.faults.clear();
		w.network_started = false;
		(std::mem::take(&mut w.timers), std::mem::take(&mut w.sinks), w.rpc.take())
	});
	drop(old);
}
impl World {
	pub fn rand(&mut self, n: u64) -> u64 {
		self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		(self.rng >> 33) % n.max(1)
	}
	pub fn block(&self, h: Hash) -> Option<&Blk> {
		self.blocks.iter().find(|b| b.hash == h)
	}
	/// from a block down to genesis
	pub fn chain(&self, h: Hash) -> Vec<&Blk> {
		let mut o = vec![];
		let mut h = h;
		while let Some(b) = self.block(h) {
			o.push(b);
			h = b.parent;
		}
		o
	}
	pub fn included(&self, h: Hash) -> BTreeSet<Tx> {
		self.chain(h).iter().flat_map(|b| b.txs.iter().copied()).collect()
	}
	fn fault(&mut self, f: impl Fn(&Fault) -> bool) -> Option<Fault> {
		if self.faults.front().map_or(false, f) {
			let x = self.faults.pop_front();
			self.hit.extend(x);
			return x
		}
		None
	}
	pub fn takes(&mut self, k: Fault) -> bool {
		self.fault(|f| *f == k).is_some()
	}
	pub fn slow(&mut self) -> u64 {
		match self.fault(|f| matches!(f, Fault::Slow(_))) {
			Some(Fault::Slow(d)) => d,
			_ => 0,
		}
	}
	fn notify(&mut self, t: Tx) {
		self.notified += 1;
		self.sinks.retain(|s| s.unbounded_send(t).is_ok());
	}
	pub fn submit(&mut self, t: Tx, needs: Option<Tx>) {
		if let Some(n) = needs {
			if !self.ready.contains(&n) && !self.included(self.best).contains(&n) {
				self.future.insert(t, n);
				return
			}
		}
		self.ready.push(t);
		self.notify(t);
		self.promote();
	}
	/// those whose turn has come, without a notification of their own
	fn promote(&mut self) {
		loop {
			let have: BTreeSet<Tx> = self.ready.iter().copied().chain(self.included(self.best)).collect();
			let Some(t) = self.future.iter().find(|(_, n)| have.contains(n)).map(|x| *x.0) else { break };
			self.future.remove(&t);
			self.ready.push(t);
		}
	}
	pub fn import(&mut self, mut b: Blk, finalize: bool) -> Result<(), String> {
		if finalize && !self.chain(b.parent).iter().any(|x| x.hash == self.finalized) {
			return Err("not in the finalized chain".into())
		}
		self.serial += 1;
		b.finalized = false;
		b.sealed_final = finalize;
		let (hash, number) = (b.hash, b.number);
		self.blocks.push(b);
		if number > self.block(self.best).map_or(0, |x| x.number) || finalize {
			self.follow(hash);
		}
		if finalize {
			self.finalize(hash)?;
		}
		Ok(())
	}
	/// the best chain is another one
	fn follow(&mut self, hash: Hash) {
		let (old, was) = (self.included(self.best), self.best);
		self.best = hash;
		let new = self.included(hash);
		self.ready.retain(|t| !new.contains(t));
		if self.block(hash).map(|x| x.parent) != Some(was) {
			self.switches += 1;
		}
		for t in old.difference(&new) {
			if !self.ready.contains(t) {
				self.ready.push(*t);
				self.notify(*t);
			}
		}
		self.promote();
	}
	pub fn finalize(&mut self, h: Hash) -> Result<(), String> {
		let line: Vec<Hash> = self.chain(h).iter().map(|b| b.hash).collect();
		if line.is_empty() {
			return Err("unknown block".into())
		}
		if !line.contains(&self.finalized) {
			return Err("not in the finalized chain".into())
		}
		for b in self.blocks.iter_mut() {
			if line.contains(&b.hash) {
				b.finalized = true;
			}
		}
		self.finalized = h;
		if !self.chain(self.best).iter().any(|b| b.hash == h) {
			self.follow(h);
		}
		Ok(())
	}
	pub fn fresh(&mut self) -> Hash {
		self.serial += 1;
		self.serial.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 2
	}
	pub fn next_timer(&self) -> Option<u64> {
		self.timers.iter().map(|t| t.0).min()
	}
}
pub fn at(t: u64, w: &Waker) {
	with(|x| x.timers.push((t, w.clone())));
}
pub fn spawn(name: &str, essential: bool, f: LocalBoxFuture<'static, ()>) {
	TASKS.with(|t| t.borrow_mut().push(Task { name: name.into(), essential, f, flag: Arc::new(Flag(AtomicBool::new(true))) }));
}
/// Polls whatever can go on, in an order the seed decides, until nothing can.
pub fn settle() -> Result<(), String> {
	for _ in 0..20_000 {
		let mut task = {
			let n = TASKS.with(|t| t.borrow().iter().filter(|t| t.flag.0.load(Ordering::Relaxed)).count());
			if n == 0 {
				return Ok(())
			}
			let k = with(|w| w.rand(n as u64)) as usize;
			TASKS.with(|t| {
				let mut t = t.borrow_mut();
				let i = (0..t.len()).filter(|i| t[*i].flag.0.load(Ordering::Relaxed)).nth(k).unwrap();
				t.remove(i)
			})
		};
		task.flag.0.store(false, Ordering::Relaxed);
		let wk = waker(task.flag.clone());
		match task.f.as_mut().poll(&mut Context::from_waker(&wk)) {
			Poll::Ready(()) =>
				if task.essential {
					with(|w| w.ended.push(task.name.clone()));
				},
			Poll::Pending => TASKS.with(|t| t.borrow_mut().push(task)),
		}
	}
	Err("the node does not come to rest".into())
}
/// Lets the clock reach `t`, waking what waits for earlier times first.
pub fn advance(t: u64) {
	with(|w| {
		w.now = w.now.max(t);
		let now = w.now;
		let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut w.timers).into_iter().partition(|x| x.0 <= now);
		w.timers = rest;
		due
	})
	.into_iter()
	.for_each(|x| x.1.wake());
}
