//! The simulated node's storage: one ordered key space with a transactional overlay.
//!
//! `State` is what is durable after a block; `Ext` is the execution environment of one runtime call (thread local).
use std::{
	cell::RefCell,
	collections::BTreeMap,
	ops::Bound::*,
	sync::Arc,
};

pub type Bytes = Arc<[u8]>;
pub type Map = BTreeMap<Bytes, Bytes>;

/// Key spaces inside the one map.
pub const TOP: u8 = b'T';
pub const CHILD: u8 = b'C';
/// Off-chain index operations recorded by a block (not part of the state).
pub const INDEX: u8 = b'O';

#[derive(Clone, Default)]
pub struct State {
	pub map: Map,
	/// order independent hash of all entries, kept incrementally
	pub root: u128,
}

fn entry_hash(k: &[u8], v: &[u8]) -> u128 {
	let mut d = (k.len() as u64).to_le_bytes().to_vec();
	d.extend_from_slice(k);
	d.extend_from_slice(v);
	u128::from_le_bytes(crate::hashing::twox_128(&d))
}

impl State {
	pub fn apply(&mut self, c: &Changes) {
		for (k, v) in c.iter() {
			if let Some(old) = self.map.get(k) {
				self.root = self.root.wrapping_sub(entry_hash(k, old));
			}
			match v {
				Some(v) => {
					self.root = self.root.wrapping_add(entry_hash(k, v));
					self.map.insert(k.clone(), v.clone());
				},
				None => {
					self.map.remove(k);
				},
			}
		}
	}
	pub fn full_root(&self) -> u128 {
		self.map.iter().fold(0u128, |a, (k, v)| a.wrapping_add(entry_hash(k, v)))
	}
}

pub type Changes = BTreeMap<Bytes, Option<Bytes>>;

/// An off-chain index operation made by a block.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IndexOp {
	Set(Vec<u8>, Vec<u8>),
	Clear(Vec<u8>),
}

pub struct Ext {
	pub base: Arc<State>,
	pub overlay: Changes,
	journal: Vec<(Bytes, Option<Option<Bytes>>)>,
	marks: Vec<usize>,
	pub reads: u64,
	pub writes: u64,
	/// free-form host data for the runtime executor (block under construction etc.)
	pub read_only_violation: bool,
}

impl Ext {
	pub fn new(base: Arc<State>) -> Self {
		Ext { base, overlay: Default::default(), journal: vec![], marks: vec![], reads: 0, writes: 0, read_only_violation: false }
	}
	fn get(&mut self, k: &[u8]) -> Option<Bytes> {
		self.reads += 1;
		match self.overlay.get(k) {
			Some(v) => v.clone(),
			None => self.base.map.get(k).cloned(),
		}
	}
	fn put(&mut self, k: &[u8], v: Option<Bytes>) {
		self.writes += 1;
		FAIL.with(|f| {
			if let Some(n) = f.get() {
				if n == 0 {
					f.set(None);
					std::panic::panic_any(CUT.to_string());
				}
				f.set(Some(n - 1));
			}
		});
		let key: Bytes = Arc::from(k);
		let old = self.overlay.insert(key.clone(), v);
		if !self.marks.is_empty() {
			self.journal.push((key, old));
		}
	}
	fn next_key(&self, k: &[u8], prefix: &[u8]) -> Option<Bytes> {
		let mut after: Bytes = Arc::from(k);
		loop {
			let r = (Excluded(after.clone()), Unbounded);
			let a = self.base.map.range::<Bytes, _>(r.clone()).next().map(|x| x.0.clone());
			let b = self.overlay.range::<Bytes, _>(r).next().map(|x| x.0.clone());
			let n = match (a, b) {
				(None, None) => return None,
				(Some(a), None) => a,
				(None, Some(b)) => b,
				(Some(a), Some(b)) => a.min(b),
			};
			if !n.starts_with(prefix) {
				return None
			}
			match self.overlay.get(&n) {
				Some(None) => after = n,
				_ => return Some(n),
			}
		}
	}
	fn start(&mut self) {
		self.marks.push(self.journal.len());
	}
	fn commit(&mut self) {
		self.marks.pop().expect("transaction");
		if self.marks.is_empty() {
			self.journal.clear();
		}
	}
	fn rollback(&mut self) {
		let m = self.marks.pop().expect("transaction");
		while self.journal.len() > m {
			let (k, old) = self.journal.pop().unwrap();
			match old {
				Some(v) => {
					self.overlay.insert(k, v);
				},
				None => {
					self.overlay.remove(&k);
				},
			}
		}
	}
	/// What changed since the innermost open transaction began: key, value before, value now.
	pub fn touched(&self) -> Vec<(Bytes, Option<Bytes>, Option<Bytes>)> {
		let from = *self.marks.last().expect("transaction");
		let mut first: BTreeMap<&Bytes, Option<Bytes>> = BTreeMap::new();
		for (k, old) in &self.journal[from..] {
			first.entry(k).or_insert_with(|| match old {
				Some(v) => v.clone(),
				None => self.base.map.get(k).cloned(),
			});
		}
		first
			.into_iter()
			.map(|(k, old)| (k.clone(), old, self.overlay.get(k).cloned().unwrap_or_else(|| self.base.map.get(k).cloned())))
			.filter(|x| x.1 != x.2)
			.collect()
	}
	pub fn depth(&self) -> usize {
		self.marks.len()
	}
	/// State changes and off-chain index operations.
	pub fn finish(self) -> (Changes, Vec<IndexOp>) {
		assert!(self.marks.is_empty(), "open storage transaction at the end of a block");
		let mut st = Changes::new();
		let mut ix = vec![];
		for (k, v) in self.overlay {
			if k[0] == INDEX {
				let key = k[1..].to_vec();
				ix.push(match v {
					Some(v) if !v.is_empty() && v[0] == 1 => IndexOp::Set(key, v[1..].to_vec()),
					_ => IndexOp::Clear(key),
				});
			} else if self.base.map.get(&k) != v.as_ref() {
				st.insert(k, v);
			}
		}
		(st, ix)
	}
}

thread_local! {
	static EXT: RefCell<Option<Ext>> = RefCell::new(None);
}

pub fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	EXT.with(|e| f(e.borrow_mut().as_mut().expect("no externalities: runtime code called outside of the simulator")))
}
pub fn is_available() -> bool {
	EXT.with(|e| e.borrow().is_some())
}

struct Restore(Option<Option<Ext>>);
impl Drop for Restore {
	fn drop(&mut self) {
		if let Some(prev) = self.0.take() {
			EXT.with(|e| *e.borrow_mut() = prev);
		}
	}
}
/// What a run that is cut short panics with.
pub const CUT: &str = "the power went";
thread_local! { static FAIL: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) }; }
/// Cuts the process short after so many more writes.
pub fn fail_after(n: Option<u64>) {
	FAIL.with(|f| f.set(n));
}
/// Runs `f` with `ext` as environment; gives it back with its changes.
pub fn run<R>(ext: Ext, f: impl FnOnce() -> R) -> (R, Ext) {
	let prev = EXT.with(|e| e.borrow_mut().replace(ext));
	let mut guard = Restore(Some(prev));
	let r = f();
	let prev = guard.0.take().unwrap();
	let ext = EXT.with(|e| std::mem::replace(&mut *e.borrow_mut(), prev)).expect("ext");
	(r, ext)
}
/// Read-only query against a state.
pub fn query<R>(state: &Arc<State>, f: impl FnOnce() -> R) -> R {
	run(Ext::new(state.clone()), f).0
}

fn tk(space: u8, k: &[u8]) -> Vec<u8> {
	let mut v = Vec::with_capacity(k.len() + 1);
	v.push(space);
	v.extend_from_slice(k);
	v
}
pub fn get(k: &[u8]) -> Option<Vec<u8>> {
	let k = tk(TOP, k);
	with(|e| e.get(&k).map(|v| v.to_vec()))
}
pub fn exists(k: &[u8]) -> bool {
	let k = tk(TOP, k);
	with(|e| e.get(&k).is_some())
}
pub fn set(k: &[u8], v: &[u8]) {
	let k = tk(TOP, k);
	with(|e| e.put(&k, Some(Arc::from(v))))
}
pub fn clear(k: &[u8]) {
	let k = tk(TOP, k);
	with(|e| e.put(&k, None))
}
pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
	let k = tk(TOP, k);
	with(|e| e.next_key(&k, &[TOP]).map(|v| v[1..].to_vec()))
}
pub struct ClearResult {
	pub more: bool,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
fn clear_prefix_raw(p: &[u8], limit: Option<u32>) -> ClearResult {
	let mut n = 0u32;
	let mut cur = p.to_vec();
	// the prefix itself may be a key
	loop {
		let next = with(|e| {
			if n == 0 && cur == p && e.get(p).is_some() {
				Some(Arc::from(p))
			} else {
				e.next_key(&cur, p)
			}
		});
		let Some(k) = next else { return ClearResult { more: false, backend: n, unique: n, loops: n } };
		if let Some(l) = limit {
			if n >= l {
				return ClearResult { more: true, backend: n, unique: n, loops: n }
			}
		}
		with(|e| e.put(&k, None));
		cur = k.to_vec();
		n += 1;
	}
}
pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> ClearResult {
	clear_prefix_raw(&tk(TOP, p), limit)
}

fn ck(child: &[u8], k: &[u8]) -> Vec<u8> {
	let mut v = Vec::with_capacity(child.len() + k.len() + 5);
	v.push(CHILD);
	v.extend_from_slice(&(child.len() as u32).to_be_bytes());
	v.extend_from_slice(child);
	v.extend_from_slice(k);
	v
}
pub fn child_get(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
	let k = ck(c, k);
	with(|e| e.get(&k).map(|v| v.to_vec()))
}
pub fn child_set(c: &[u8], k: &[u8], v: &[u8]) {
	let k = ck(c, k);
	with(|e| e.put(&k, Some(Arc::from(v))))
}
pub fn child_clear(c: &[u8], k: &[u8]) {
	let k = ck(c, k);
	with(|e| e.put(&k, None))
}
pub fn child_next_key(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
	let p = ck(c, &[]);
	let k = ck(c, k);
	with(|e| e.next_key(&k, &p).map(|v| v[p.len()..].to_vec()))
}
pub fn child_clear_prefix(c: &[u8], p: &[u8], limit: Option<u32>) -> ClearResult {
	clear_prefix_raw(&ck(c, p), limit)
}

pub fn index_set(k: &[u8], v: &[u8]) {
	let k = tk(INDEX, k);
	let mut val = vec![1u8];
	val.extend_from_slice(v);
	with(|e| e.put(&k, Some(Arc::from(&val[..]))))
}
pub fn index_clear(k: &[u8]) {
	let k = tk(INDEX, k);
	with(|e| e.put(&k, Some(Arc::from(&[0u8][..]))))
}

/// Hash of the whole state as it is now, without off-chain index operations.
pub fn root() -> u128 {
	with(|e| {
		let mut r = e.base.root;
		for (k, v) in e.overlay.iter().filter(|(k, _)| k[0] != INDEX) {
			if let Some(old) = e.base.map.get(k) {
				r = r.wrapping_sub(entry_hash(k, old));
			}
			if let Some(v) = v {
				r = r.wrapping_add(entry_hash(k, v));
			}
		}
		r
	})
}

pub fn start_transaction() {
	with(|e| e.start())
}
pub fn commit_transaction() {
	with(|e| e.commit())
}
pub fn rollback_transaction() {
	with(|e| e.rollback())
}
/// Undoes everything down to `depth` open transactions (after a panic inside of them).
pub fn rollback_to(depth: usize) {
	while with(|e| e.depth()) > depth {
		rollback_transaction()
	}
}
pub fn is_transactional() -> bool {
	with(|e| e.depth() > 0)
}

struct TxGuard(bool);
impl Drop for TxGuard {
	fn drop(&mut self) {
		if self.0 && is_available() {
			// unwinding: the executor throws the whole environment away
		}
	}
}
/// `frame_support::storage::with_storage_layer`: all or nothing.
pub fn with_storage_layer<T, E, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	start_transaction();
	let _g = TxGuard(true);
	let r = f();
	match r {
		Ok(x) => {
			commit_transaction();
			Ok(x)
		},
		Err(e) => {
			rollback_transaction();
			Err(e)
		},
	}
}
pub fn in_storage_layer<T, E, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	if is_transactional() {
		f()
	} else {
		with_storage_layer(f)
	}
}
pub fn dispatch_layer<T>(f: impl FnOnce() -> T) -> T {
	f()
}

/// Builds a genesis: runs `f` on top of `s`.
pub fn assimilate(s: &mut crate::sp_core::storage::Storage, f: impl FnOnce()) {
	let (_, ext) = run(Ext::new(Arc::new(std::mem::take(&mut s.state))), f);
	let base = ext.base.clone();
	let (ch, _) = ext.finish();
	let mut st = Arc::try_unwrap(base).unwrap_or_else(|a| (*a).clone());
	st.apply(&ch);
	s.state = st;
}

/// `frame_support::storage::with_transaction`.
pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
	E: From<crate::sp_runtime::DispatchError>,
	F: FnOnce() -> crate::sp_runtime::TransactionOutcome<Result<T, E>>,
{
	with_transaction_unchecked(f)
}
pub fn with_transaction_unchecked<R, F: FnOnce() -> crate::sp_runtime::TransactionOutcome<R>>(f: F) -> R {
	start_transaction();
	let _g = TxGuard(true);
	match f() {
		crate::sp_runtime::TransactionOutcome::Commit(r) => {
			commit_transaction();
			r
		},
		crate::sp_runtime::TransactionOutcome::Rollback(r) => {
			rollback_transaction();
			r
		},
	}
}
