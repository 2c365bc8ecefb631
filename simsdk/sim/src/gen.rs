//! Makes up transactions from what the submitting node knows: mostly sensible ones, the rest wrong in one particular.
use crate::chain::{Acc, Hash};
use crate::model::{self, handles, release, storage, validity};
use crate::rng::Rng;
use crate::users;
use crate::view::*;
use pallet_msa::types::AddProvider;
use common_primitives::schema::{ModelType, PayloadLocation, SchemaSetting};
use frequency_runtime::{ProxyType, Runtime, RuntimeCall, UncheckedExtrinsic};
use simsdk::codec::Encode;
use simsdk::sp_core::bounded::BoundedVec;
use simsdk::sp_runtime::generic::Era;
use simsdk::sp_runtime::{MultiAddress, MultiSignature};

/// kinds of activity, weighted by the profile of a run
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Do {
	Msa,
	Deleg,
	Handle,
	Capacity,
	Message,
	Schema,
	Storage,
	Release,
	Passkey,
	Balance,
	Proxy,
	Paid,
	Wrap,
	Replay,
	Fuzz,
	Govern,
	Office,
}
pub const KINDS: usize = 17;
pub const DO: [Do; KINDS] = [Do::Msa, Do::Deleg, Do::Handle, Do::Capacity, Do::Message, Do::Schema, Do::Storage, Do::Release, Do::Passkey, Do::Balance, Do::Proxy, Do::Paid, Do::Wrap, Do::Replay, Do::Fuzz, Do::Govern, Do::Office];

pub struct Ctx<'a> {
	pub v: &'a View,
	/// number of the next block
	pub n: u32,
	pub relay: u32,
	pub genesis: Hash,
	/// hash of a block of the node's chain
	pub hash_at: &'a dyn Fn(u32) -> Option<Hash>,
	pub w: &'a [u32; KINDS],
	/// percentage of sabotaged parameters
	pub bad: u64,
	pub bases: u8,
	pub hot: u64,
	/// share of MSA calls that attach one of the crowd's keys to the MSA with most keys
	pub crowd: u64,
	/// signed payloads seen so far, and whole transactions
	pub bank: &'a [RuntimeCall],
	pub sent: &'a [UncheckedExtrinsic],
	/// nonces given out but not yet included
	pub pending: &'a dyn Fn(&Acc) -> u32,
}
/// those who share an account, and how many of them it takes
pub const TEAMS: [(&[usize], u16); 4] = [(&[0, 1], 2), (&[0, 1, 2], 2), (&[1, 2, 4], 3), (&[0, 2], 1)];
pub fn team_account(t: &(&[usize], u16)) -> Acc {
	let mut l: Vec<Acc> = t.0.iter().map(|x| users::acc(*x)).collect();
	l.sort();
	crate::model::offices::multi(&l, t.1)
}
pub const CIDS: [&str; 6] = [
	"bafkrgqb76pscorjihsk77zpyst3p364zlti6aojlu4nga34vhp7t5orzwbwwytvp7ej44r5yhjzneanqwb5arcnvuvfwo2d4qgzyx5hymvto4",
	"bafkreieb2x7yyuhy6hmct4j7tkmgnthrfpqyo4mt5nscx7pvc6oiweiwjq",
	"QmRgutAxd8t7oGkSm4wmeuByG6M51wcTso6cubDdQtuEfL",
	"bafkr",
	"",
	"zzz!notacid",
];
type C = RuntimeCall;

/// A handle to ask for, one of so many.
pub fn good_base(r: &mut Rng, bases: u8) -> String {
	const W: [&str; 14] = ["alice", "bob.x", "frequency", "Bobby", "zoe", "sammy", "\u{3b1}\u{3b2}\u{3b3}\u{3b4}", "\u{434}\u{43e}\u{43c}", "\u{9f8d}\u{5b57}\u{7a93}", "user one", "test-er", "admin", "Moderator", "h3llo"];
	let mut s: String = match bases {
		1 => "samename".into(),
		_ => W[r.idx(bases.min(14) as usize)].into(),
	};
	if r.pct(45) {
		// the same to the eye
		let i = r.idx(s.chars().count());
		s = s.chars().enumerate().map(|(j, c)| if i == j { let l = crate::refhandle::lookalikes(c); if l.is_empty() { c } else { *r.pick(&l) } } else { c }).collect();
	}
	if r.pct(10) {
		s = s.to_uppercase();
	}
	s
}
pub fn spoil_base(r: &mut Rng, mut s: String) -> Vec<u8> {
	match r.below(9) {
		0 => s = "ab".into(),
		1 => s = "a".repeat(r.range(19, 34) as usize),
		2 => s.push(*r.pick(&crate::refhandle::BLOCKED.chars().collect::<Vec<_>>())),
		3 => s = crate::refhandle::RESERVED[r.idx(8)].into(),
		4 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{2603}')),
		5 => s = "\u{fdfb}\u{fdf5}\u{fdf6}\u{fdf7}".into(),
		6 => return r.bytes(8),
		7 => s = s.chars().chain("\u{1F600}".chars()).collect(),
		_ => s = "\u{10348}\u{10041}\u{10061}".into(),
	}
	s.into_bytes()
}
struct G<'a, 'b> {
	r: Rng,
	c: &'a Ctx<'b>,
	/// the next parameter to be wrong: each parameter asks in turn
	bad: bool,
}
pub fn bv<T: Clone, S: simsdk::sp_core::Get<u32>>(mut v: Vec<T>) -> BoundedVec<T, S> {
	v.truncate(S::get() as usize);
	match BoundedVec::try_from(v) {
		Ok(b) => b,
		Err(_) => unreachable!(),
	}
}
/// user to sign with, call
pub type Made = (usize, RuntimeCall);

pub fn tx(seed: u64, c: &Ctx) -> UncheckedExtrinsic {
	let mut r = Rng::new(seed);
	let bad = r.pct(c.bad);
	let mut g = G { r, c, bad };
	if !c.sent.is_empty() && c.w[Do::Replay as usize] > 0 && g.r.pct(3) {
		return g.r.pick(c.sent).clone()
	}
	let total: u32 = c.w.iter().sum();
	let mut x = g.r.below(total as u64) as u32;
	let mut k = Do::Msa;
	for (i, w) in c.w.iter().enumerate() {
		if x < *w {
			k = DO[i];
			break
		}
		x -= w;
	}
	if k == Do::Passkey {
		return g.passkey()
	}
	let (who, call) = g.made(k, 0);
	g.sign(who, call)
}

impl<'a, 'b> G<'a, 'b> {
	/// one parameter of a bad transaction is wrong
	fn wrong(&mut self) -> bool {
		if self.bad && self.r.pct(35) {
			self.bad = false;
			return true
		}
		false
	}
	fn sign(&mut self, who: usize, call: C) -> UncheckedExtrinsic {
		let acc = users::acc(who);
		let mut nonce = (self.c.pending)(&acc);
		let mut tip = if self.r.pct(5) { self.r.below(1000) as u128 } else { 0 };
		let n = self.c.n;
		let (mut era, mut birth) = (Era::Immortal, 0);
		if self.r.pct(30) {
			let p = *self.r.pick(&[4u64, 8, 16, 64]);
			era = Era::mortal(p, (n - 1) as u64);
			birth = era.birth((n - 1) as u64) as u32;
		}
		let mut genesis = self.c.genesis;
		let mut key = who;
		if self.wrong() {
			match self.r.below(8) {
				0 => nonce = nonce.wrapping_sub(1 + self.r.below(2) as u32),
				1 => nonce += 1 + self.r.below(3) as u32,
				2 => nonce = self.r.next() as u32,
				3 => tip = u128::MAX / 2,
				4 => genesis.0[0] ^= 1,
				5 => key = self.r.idx(users::N),
				6 => birth = birth.wrapping_add(1),
				_ => {
					era = Era::mortal(4, (n as u64).saturating_sub(8));
					birth = era.birth((n as u64).saturating_sub(8)) as u32;
				},
			}
		}
		let h = (self.c.hash_at)(birth).unwrap_or_default();
		let mut x = users::sign_tx(key, call, era, nonce, tip, genesis, h);
		if key != who {
			if let Some(s) = x.signature.as_mut() {
				s.0 = MultiAddress::Id(acc);
			}
		}
		x
	}
	// ---- who and what
	fn any(&mut self) -> usize {
		self.r.idx(users::N)
	}
	fn with_msa(&mut self) -> usize {
		let l: Vec<usize> = (0..users::N).filter(|i| self.c.v.msa_of(&users::acc(*i)).is_some()).collect();
		if l.is_empty() || self.wrong() {
			self.any()
		} else {
			*self.r.pick(&l)
		}
	}
	fn rich(&mut self) -> usize {
		self.r.idx(9)
	}
	fn without_msa(&mut self) -> usize {
		let l: Vec<usize> = (0..users::N).filter(|i| self.c.v.msa_of(&users::acc(*i)).is_none()).collect();
		if l.is_empty() || self.wrong() {
			self.any()
		} else {
			*self.r.pick(&l)
		}
	}
	fn msa(&self, i: usize) -> u64 {
		self.c.v.msa_of(&users::acc(i)).unwrap_or(0)
	}
	fn msa_id(&mut self) -> u64 {
		if self.wrong() {
			return *self.r.pick(&[0, self.c.v.msa.max_id + 1, u64::MAX])
		}
		1 + self.r.below(self.c.v.msa.max_id.max(1))
	}
	fn provider(&mut self) -> u64 {
		let l: Vec<u64> = self.c.v.del.prov.keys().copied().collect();
		if l.is_empty() || self.wrong() {
			return self.msa_id()
		}
		*self.r.pick(&l)
	}
	/// a user who controls the MSA
	fn key_of(&mut self, msa: u64) -> usize {
		let l: Vec<usize> = self.c.v.keys_of(msa).iter().filter_map(users::index).collect();
		if l.is_empty() || self.wrong() {
			self.any()
		} else {
			*self.r.pick(&l)
		}
	}
	fn schema(&mut self) -> u16 {
		if self.wrong() {
			return *self.r.pick(&[0, self.c.v.sch.max_id.wrapping_add(1), u16::MAX])
		}
		1 + self.r.below(self.c.v.sch.max_id.max(1) as u64) as u16
	}
	fn schema_at(&mut self, location: u8) -> u16 {
		let l: Vec<u16> = self.c.v.sch.info.iter().filter(|x| x.1.location == location).map(|x| *x.0).collect();
		if l.is_empty() || self.wrong() {
			self.schema()
		} else {
			*self.r.pick(&l)
		}
	}
	fn schema_ids(&mut self) -> Vec<u16> {
		let max = self.c.v.sch.max_id;
		if max > 30 && self.r.pct(60) {
			// about as many as fit
			let n = *self.r.pick(&[8u64, 14, 15, 16, 28, 29, 30, 30, 30, 31, 32]);
			let mut l: Vec<u16> = (1..=max).collect();
			while l.len() as u64 > n {
				let i = self.r.idx(l.len());
				l.swap_remove(i);
			}
			return l
		}
		if self.wrong() {
			let n = self.r.range(29, 33) as u16;
			return (1..=n).collect()
		}
		let n = self.r.below(5);
		(0..n).map(|_| self.schema()).collect()
	}
	fn expires(&mut self, window: u32) -> u32 {
		let n = self.c.n;
		if self.wrong() || self.r.pct(6) {
			let l = [0, n.saturating_sub(1), n, n + 1, n + window - 1, n + window, n + window + 1, u32::MAX];
			return *self.r.pick(&l)
		}
		if self.r.pct(25) {
			return n + self.r.range(1, 6) as u32
		}
		n + self.r.range(2, 99.min(window as u64 - 2)) as u32
	}
	/// signs a payload, or fails to
	fn proof(&mut self, who: usize, p: &[u8]) -> MultiSignature {
		if self.wrong() {
			return match self.r.below(3) {
				0 => users::sign(who, p),
				1 => {
					let k = self.any();
					users::sign_payload(k, p)
				},
				_ => {
					let mut q = p.to_vec();
					let i = self.r.idx(q.len().max(1));
					if let Some(b) = q.get_mut(i) {
						*b ^= 1
					}
					users::sign_payload(who, &q)
				},
			}
		}
		users::sign_payload(who, p)
	}
	// ---- calls
	fn made(&mut self, k: Do, depth: u32) -> Made {
		match k {
			Do::Msa => self.msa_call(),
			Do::Deleg => self.deleg(),
			Do::Handle => self.handle(),
			Do::Capacity => self.capacity(),
			Do::Message => self.message(),
			Do::Schema => self.schema_call(),
			Do::Storage => self.storage(),
			Do::Release => self.release(),
			Do::Balance | Do::Passkey => self.balance(),
			Do::Proxy => self.proxy_admin(),
			Do::Paid => self.paid(),
			Do::Wrap => self.wrap(depth),
			Do::Replay => self.replay(),
			Do::Fuzz => self.fuzz(),
			Do::Govern => self.govern(),
			Do::Office => self.by_office(),
		}
	}
	fn some(&mut self, depth: u32) -> Made {
		let l = [Do::Msa, Do::Deleg, Do::Handle, Do::Capacity, Do::Message, Do::Storage, Do::Release, Do::Balance, Do::Schema, Do::Wrap, Do::Paid, Do::Proxy, Do::Govern, Do::Office];
		// what the profile is about comes first
		let w: Vec<Do> = l.iter().copied().filter(|k| self.c.w[*k as usize] > 0 && (depth < 2 || *k != Do::Wrap)).collect();
		let k = if w.is_empty() || self.r.pct(25) { *self.r.pick(&l[..9]) } else { *self.r.pick(&w) };
		self.made(k, depth + 1)
	}
	fn msa_call(&mut self) -> Made {
		use pallet_msa::Call as A;
		if self.r.pct(self.c.crowd) {
			return self.crowd()
		}
		match self.r.below(100) {
			0..=17 => (self.without_msa(), A::create {}.into()),
			18..=35 => self.add_key(),
			36 | 37 => self.swap(),
			38..=55 => {
				let w = self.with_msa();
				let m = self.msa(w);
				let l: Vec<Acc> = self.c.v.keys_of(m).into_iter().filter(|a| *a != users::acc(w)).collect();
				let k = if l.is_empty() || self.wrong() { users::acc(self.any()) } else { self.r.pick(&l).clone() };
				(w, A::delete_msa_public_key { public_key_to_delete: k }.into())
			},
			56..=68 => {
				// an MSA that could go
				let n = self.c.n;
				let v = self.c.v;
				let l: Vec<usize> = (0..users::N)
					.filter(|i| {
						v.msa_of(&users::acc(*i))
							.map(|m| v.keys_of(m).len() == 1 && !v.hand.name.contains_key(&m) && !v.del.prov.contains_key(&m) && v.del.map.iter().all(|d| d.0 .0 != m || !model::msa::alive(d.1.revoked_at, n)))
							.unwrap_or(false)
					})
					.collect();
				let w = if l.is_empty() || self.r.pct(40) { self.with_msa() } else { *self.r.pick(&l) };
				(w, A::retire_msa {}.into())
			},
			69..=84 => self.sponsor(),
			85..=90 => {
				let key = self.with_msa();
				let l = if self.wrong() { 17 + self.r.below(3) } else { self.r.below(17) };
				let name = self.r.bytes(l as usize);
				let c: C = A::create_provider_via_governance { provider_key: users::acc(key), provider_name: name }.into();
				if self.wrong() {
					(self.any(), c)
				} else {
					(users::SUDO, sudo(c))
				}
			},
			91..=93 => {
				let l = self.r.below(18) as usize;
				let w = self.with_msa();
				let c = A::create_provider { provider_name: self.r.bytes(l) }.into();
				self.filtered(w, c)
			},
			94..=95 => {
				let l = self.r.below(18) as usize;
				(self.with_msa(), A::propose_to_be_provider { provider_name: self.r.bytes(l) }.into())
			},
			_ => self.deleg(),
		}
	}
	fn crowd(&mut self) -> Made {
		let v = self.c.v;
		let owner = (0..users::N).filter(|i| v.msa_of(&users::acc(*i)).is_some()).max_by_key(|i| v.keys_of(self.msa(*i)).len());
		let new: Vec<usize> = (users::N..users::N + users::CROWD).filter(|i| v.msa_of(&users::acc(*i)).is_none()).collect();
		match owner {
			Some(o) if !new.is_empty() => {
				let k = *self.r.pick(&new);
				self.attach(o, k)
			},
			_ => self.add_key(),
		}
	}
	/// a key leaves its MSA and comes back (or the other way round) in one block
	fn swap(&mut self) -> Made {
		use simsdk::pallets::utility::Call as U;
		let v = self.c.v;
		let l: Vec<usize> = (0..users::N).filter(|i| v.msa_of(&users::acc(*i)).map(|m| v.keys_of(m).len() > 1).unwrap_or(false)).collect();
		let (w, other) = if l.is_empty() {
			(self.with_msa(), self.without_msa())
		} else {
			let w = *self.r.pick(&l);
			let l: Vec<usize> = v.keys_of(self.msa(w)).iter().filter_map(users::index).filter(|i| *i != w).collect();
			(w, if l.is_empty() { self.without_msa() } else { *self.r.pick(&l) })
		};
		let mut calls = vec![];
		let mut there = v.msa_of(&users::acc(other)).is_some();
		for _ in 0..self.r.range(2, 5) {
			calls.push(if there { pallet_msa::Call::delete_msa_public_key { public_key_to_delete: users::acc(other) }.into() } else { self.attach(w, other).1 });
			there = !there;
		}
		(w, if self.r.pct(70) { U::batch { calls }.into() } else { U::batch_all { calls }.into() })
	}
	fn add_key(&mut self) -> Made {
		let owner = self.with_msa();
		let new = self.without_msa();
		self.attach(owner, new)
	}
	fn attach(&mut self, owner: usize, new: usize) -> Made {
		let m = if self.wrong() { self.msa_id() } else { self.msa(owner) };
		let p = AddKeyData_ { msa_id: m, expiration: self.expires(100), new_public_key: users::acc(new) };
		let e = p.encode();
		let a = self.proof(owner, &e);
		let b = if self.wrong() { a.clone() } else { self.proof(new, &e) };
		let by = if self.r.pct(70) { self.rich() } else { self.any() };
		(
			by,
			pallet_msa::Call::add_public_key_to_msa { msa_owner_public_key: users::acc(owner), msa_owner_proof: a, new_key_owner_proof: b, add_key_payload: p }.into(),
		)
	}
	fn grant_payload(&mut self, p: u64) -> AddProvider {
		let authorized_msa_id = if self.wrong() { self.msa_id() } else { p };
		let schema_ids = self.schema_ids();
		AddProvider { authorized_msa_id, schema_ids, expiration: self.expires(100) }
	}
	fn sponsor(&mut self) -> Made {
		let p = self.provider();
		let by = self.key_of(p);
		let d = self.without_msa();
		let pl = self.grant_payload(p);
		let proof = self.proof(d, &pl.encode());
		(by, pallet_msa::Call::create_sponsored_account_with_delegation { delegator_key: users::acc(d), proof, add_provider_payload: pl }.into())
	}
	fn deleg(&mut self) -> Made {
		use pallet_msa::Call as A;
		let v = self.c.v;
		let pairs: Vec<(u64, u64)> = v.del.map.keys().copied().collect();
		match self.r.below(100) {
			0..=39 => {
				let p = self.provider();
				let by = self.key_of(p);
				let d = self.with_msa();
				let pl = self.grant_payload(p);
				let proof = self.proof(d, &pl.encode());
				(by, A::grant_delegation { delegator_key: users::acc(d), proof, add_provider_payload: pl }.into())
			},
			40..=56 if !pairs.is_empty() => {
				let (d, p) = *self.r.pick(&pairs);
				let p = if self.wrong() { self.msa_id() } else { p };
				(self.key_of(d), A::revoke_delegation_by_delegator { provider_msa_id: p }.into())
			},
			57..=70 if !pairs.is_empty() => {
				let (d, p) = *self.r.pick(&pairs);
				let d = if self.wrong() { self.msa_id() } else { d };
				(self.key_of(p), A::revoke_delegation_by_provider { delegator: d }.into())
			},
			71..=89 if !pairs.is_empty() => {
				let k = *self.r.pick(&pairs);
				let perms: Vec<u16> = v.del.map[&k].perms.keys().copied().collect();
				let ids = if perms.is_empty() || self.wrong() { self.schema_ids() } else { (0..self.r.range(1, 3)).map(|_| *self.r.pick(&perms)).collect() };
				(self.key_of(k.0), A::revoke_schema_permissions { provider_msa_id: k.1, schema_ids: ids }.into())
			},
			_ => self.sponsor(),
		}
	}
	pub fn base(&mut self) -> Vec<u8> {
		let s = good_base(&mut self.r, self.c.bases);
		match self.wrong() {
			true => spoil_base(&mut self.r, s),
			false => s.into_bytes(),
		}
	}
	fn handle(&mut self) -> Made {
		use pallet_handles::Call as H;
		let v = self.c.v;
		if self.r.pct(18) {
			let n = self.c.n;
			let l: Vec<usize> = (0..users::N).filter(|i| v.msa_of(&users::acc(*i)).and_then(|m| v.hand.name.get(&m)).map(|h| h.1 <= n).unwrap_or(false)).collect();
			let w = if l.is_empty() || self.r.pct(35) { self.with_msa() } else { *self.r.pick(&l) };
			return (w, H::retire_handle {}.into())
		}
		let o = self.with_msa();
		let has = v.hand.name.contains_key(&self.msa(o));
		let expiration = self.expires(handles::MORTALITY);
		let payload = common_primitives::handles::ClaimHandlePayload { base_handle: self.base(), expiration };
		let proof = self.proof(o, &payload.encode());
		let by = if self.r.pct(60) { self.with_msa() } else { self.rich() };
		let msa_owner_key = users::acc(o);
		let change = has != self.wrong();
		(by, if change { H::change_handle { msa_owner_key, proof, payload }.into() } else { H::claim_handle { msa_owner_key, proof, payload }.into() })
	}
	fn amount(&mut self, have: Bal) -> Bal {
		let l = [have, have.saturating_add(1), have.saturating_sub(1), have.saturating_sub(model::DOLLAR), model::ED, model::ED - 1, 0, 1, u128::MAX];
		if self.wrong() || self.r.pct(12) {
			return *self.r.pick(&l)
		}
		let top = (have / 3).max(1);
		match self.r.below(3) {
			0 => self.r.below(top.min(u64::MAX as u128) as u64) as u128,
			1 => model::ED + self.r.below(20) as u128 * model::ED / 2,
			_ => self.r.below((50 * model::DOLLAR) as u64) as u128,
		}
	}
	fn capacity(&mut self) -> Made {
		use pallet_capacity::Call as K;
		let v = self.c.v;
		match self.r.below(100) {
			0..=44 => {
				let w = if self.r.pct(85) { self.rich() } else { self.any() };
				let have = v.free(&users::acc(w));
				let target = self.provider();
				(w, K::stake { target, amount: self.amount(have) }.into())
			},
			45..=74 => {
				let l: Vec<(Acc, u64)> = v.cap.target.keys().cloned().collect();
				let (a, t) = if l.is_empty() { (users::acc(0), 1) } else { self.r.pick(&l).clone() };
				let staked = v.cap.target.get(&(a.clone(), t)).map(|x| x.0).unwrap_or(0);
				let active = v.cap.ledger.get(&a).map(|x| x.0).unwrap_or(0);
				let t = if self.wrong() { self.provider() } else { t };
				let r = match self.r.below(8) {
					0 => staked,
					1 => active,
					2 => staked.saturating_add(1),
					3 => active.saturating_sub(model::ED),
					4 => 0,
					_ => 1 + self.r.below((staked / 2).max(1) as u64) as u128,
				};
				(users::index(&a).unwrap_or(0), K::unstake { target: t, requested_amount: r }.into())
			},
			75..=92 => {
				let l: Vec<usize> = v.cap.unlocks.keys().filter_map(users::index).collect();
				let w = if l.is_empty() || self.r.pct(10) { self.any() } else { *self.r.pick(&l) };
				(w, K::withdraw_unstaked {}.into())
			},
			_ => {
				let length = if self.wrong() { *self.r.pick(&[7200, 7201, 0, u32::MAX]) } else { self.r.range(1, 12) as u32 };
				let c: C = K::set_epoch_length { length }.into();
				if self.wrong() {
					(self.any(), c)
				} else {
					(users::SUDO, sudo(c))
				}
			},
		}
	}
	fn message(&mut self) -> Made {
		use pallet_messages::Call as M;
		let (p, d) = self.acting();
		let by = self.key_of(p);
		if self.r.pct(25) {
			let cid = if self.r.pct(70) { CIDS[self.r.idx(2)] } else { CIDS[self.r.idx(6)] };
			let payload_length = if self.wrong() { u32::MAX } else { self.r.below(100_000) as u32 };
			return (by, M::add_ipfs_message { schema_id: self.schema_at(1), cid: cid.as_bytes().to_vec(), payload_length }.into())
		}
		let l = if self.wrong() { self.r.range(3071, 3074) } else { self.r.below(40) };
		let on_behalf_of = if self.r.pct(35) { None } else { Some(d) };
		let payload = self.r.bytes(l as usize);
		(by, M::add_onchain_message { on_behalf_of, schema_id: self.granted(d, p, 0), payload }.into())
	}
	/// a provider and a delegator, mostly with a delegation
	fn acting(&mut self) -> (u64, u64) {
		let pairs: Vec<(u64, u64)> = self.c.v.del.map.keys().copied().collect();
		if pairs.is_empty() || self.wrong() || self.r.pct(10) {
			return (self.provider(), self.msa_id())
		}
		let (d, p) = *self.r.pick(&pairs);
		(p, d)
	}
	fn granted(&mut self, d: u64, p: u64, location: u8) -> u16 {
		let v = self.c.v;
		let l: Vec<u16> =
			v.del.map.get(&(d, p)).map(|x| x.perms.keys().copied().filter(|s| v.sch.info.get(s).map(|i| i.location == location).unwrap_or(false)).collect()).unwrap_or_default();
		if l.is_empty() || self.r.pct(12) {
			self.schema_at(location)
		} else {
			*self.r.pick(&l)
		}
	}
	fn model_(&mut self, ty: &ModelType) -> Vec<u8> {
		if let ModelType::Parquet = ty {
			let i = if self.wrong() { self.r.idx(model::schemas::PARQUET.len()) } else { self.r.idx(2) };
			return model::schemas::PARQUET[i].0.as_bytes().to_vec()
		}
		if self.wrong() {
			return match self.r.below(7) {
				0 => ["{}", "{\"a\":1}", "{\"a\":12}"][self.r.idx(3)].as_bytes().to_vec(),
				1 => b"true!".to_vec(),
				2 => b"[1,2,3,4,5,6,7]".to_vec(),
				3 => b"{\"a\": 1".to_vec(),
				4 => b"\"abcdefghijk\"".to_vec(),
				5 => {
					let n = self.c.v.sch.max_bytes as i64 - 10 + self.r.range(0, 3) as i64;
					format!("{{\"a\": \"{}\"}}", "x".repeat(n.max(0) as usize)).into_bytes()
				},
				_ => self.r.bytes(12),
			}
		}
		let n = self.r.below(100);
		match self.r.below(10) {
			0 => format!("{{\"n\": {}}}", n),
			1 => ["{\"type\":\"string\"}", "{\"type\":\"int\"}", "{\"a\":[]}", "{\"b\":{}}"][self.r.idx(4)].to_string(),
			2 => format!("{}{{\"n\":{}}}\n{}", " ".repeat(self.r.idx(9)), n, "\t".repeat(self.r.idx(9))),
			3 => format!("{{\"na\\u006de\": \"\u{e9}\u{4e2d}\u{1f600}\", \"n\": {}.5e-3, \"n\": null}}", n),
			4 => {
				let d = self.r.idx(40);
				format!("{{\"deep\": {}{}{}}}", "[".repeat(d), n, "]".repeat(d))
			},
			5 => format!("{{\"doc\": \"{}\"}}", "d".repeat(self.r.idx(700))),
			_ => format!("{{\"type\": \"record\", \"n\": {}}}", n),
		}
		.into_bytes()
	}
	fn schema_name(&mut self) -> Vec<u8> {
		const N: [&str; 6] = ["dsnp.broadcast", "bsky.post", "dsnp.reply", "abc.x", "my-ns.some-thing", "dsnp.a-b"];
		const B: [&str; 16] = [
			"dsnp", "dsnp.", ".x", "a.b", "dsnp.x.y", "-ab.c", "ab-.c", "abc.-d", "abc.d-", "DSNP.Broadcast", " dsnp.reply ", "dsnp.br0adcast", "dsn p.a", "abcdefghijklmnopqrstuvwxyzabcd.a", "ds\u{f6}p.a", "abc.abcdefghijklmnopqrstuvwxyzab",
		];
		if self.wrong() || self.r.pct(15) {
			return B[self.r.idx(16)].as_bytes().to_vec()
		}
		if let Some((n, d)) = self.c.v.sch.names.iter().find(|x| x.1.len() > 200).map(|x| x.0) {
			// a name with about as many versions as there can be
			if self.r.pct(50) {
				return [&n[..], d].join(&b'.')
			}
		}
		N[self.r.idx(6)].as_bytes().to_vec()
	}
	fn nameless(&mut self) -> u16 {
		let l: Vec<u16> = self.c.v.sch.info.iter().filter(|x| !x.1.has_name).map(|x| *x.0).collect();
		if l.is_empty() || self.r.pct(40) {
			self.schema()
		} else {
			*self.r.pick(&l)
		}
	}
	fn schema_call(&mut self) -> Made {
		use pallet_schemas::Call as S;
		let ty = if self.r.pct(80) { ModelType::AvroBinary } else { ModelType::Parquet };
		let model = bv(self.model_(&ty));
		let payload_location = match self.r.below(4) {
			0 => PayloadLocation::OnChain,
			1 => PayloadLocation::IPFS,
			2 => PayloadLocation::Itemized,
			_ => PayloadLocation::Paginated,
		};
		let mut settings = vec![];
		if self.r.pct(20) {
			settings.push(SchemaSetting::AppendOnly);
		}
		if self.r.pct(20) {
			settings.push(SchemaSetting::SignatureRequired);
		}
		let settings = bv(settings);
		let creator_key = users::acc(self.any());
		let c: C = match self.r.below(100) {
			0..=14 => S::create_schema_via_governance { creator_key, model, model_type: ty, payload_location, settings }.into(),
			15..=54 => {
				let schema_name = if self.r.pct(70) { Some(bv(self.schema_name())) } else { None };
				S::create_schema_via_governance_v2 { creator_key, model, model_type: ty, payload_location, settings, schema_name }.into()
			},
			55..=82 => S::create_schema_name_via_governance { schema_id: self.nameless(), schema_name: bv(self.schema_name()) }.into(),
			83..=90 => {
				let max_size = if self.wrong() { *self.r.pick(&[65_500, 65_501, 0, u32::MAX]) } else { self.r.range(20, 2000) as u32 };
				S::set_max_schema_model_bytes { max_size }.into()
			},
			91..=93 => {
				let schema_name = if self.r.pct(60) { Some(bv(self.schema_name())) } else { None };
				let w = self.any();
				return self.filtered(w, S::create_schema_v3 { model, model_type: ty, payload_location, settings, schema_name }.into())
			},
			94..=95 => {
				let w = self.any();
				return self.filtered(w, S::create_schema_v2 { model, model_type: ty, payload_location, settings }.into())
			},
			96 => {
				let w = self.any();
				return self.filtered(w, S::create_schema { model, model_type: ty, payload_location }.into())
			},
			_ => return (self.any(), S::propose_to_create_schema_name { schema_id: self.nameless(), schema_name: bv(self.schema_name()) }.into()),
		};
		if self.wrong() {
			(self.any(), c)
		} else {
			(users::SUDO, sudo(c))
		}
	}
	fn page_id(&mut self) -> u16 {
		if self.wrong() {
			*self.r.pick(&[32, 33, u16::MAX])
		} else {
			self.r.below(3) as u16
		}
	}
	fn target(&mut self, h: u32) -> u32 {
		if self.wrong() {
			*self.r.pick(&[0, h.wrapping_add(1), h ^ 0x8000_0000, self.r.clone().next() as u32])
		} else {
			h
		}
	}
	fn actions<S: simsdk::sp_core::Get<u32> + Clone + std::fmt::Debug + PartialEq, N: simsdk::sp_core::Get<u32>>(&mut self, owner: u64, schema: u16) -> BoundedVec<pallet_stateful_storage::types::ItemAction<S>, N> {
		use pallet_stateful_storage::types::ItemAction as I;
		let have = self.c.v.stor.items.get(&(owner, schema)).and_then(|p| storage::items(&p.1)).map(|i| i.len()).unwrap_or(0);
		let app = self.c.v.sch.info.get(&schema).map(|s| s.settings & storage::APPEND_ONLY != 0).unwrap_or(false);
		// pages that many write to fill up: with few large items, or with many small ones
		let fill = self.c.hot > 0 && self.r.pct(80);
		let n = if self.wrong() { *self.r.pick(&[0, 5]) } else { self.r.range(if fill { 4 } else { 1 }, if fill { 6 } else { 4 }) };
		let mut v = vec![];
		let mut used = vec![];
		for _ in 0..n {
			if have > 0 && self.r.pct(if app || fill { 6 } else { 40 }) {
				let mut i = self.r.below(have as u64) as u16;
				if self.wrong() {
					i = *self.r.pick(&[have as u16, u16::MAX, used.last().copied().unwrap_or(0)]);
				} else if used.contains(&i) && self.r.pct(90) {
					continue
				}
				used.push(i);
				v.push(I::Delete { index: i });
			} else {
				let l = match self.r.below(12) {
					0..=10 if fill => if schema == 3 { self.r.range(200, 1025) } else { self.r.below(3) },
					0 => 0,
					1 => self.r.range(1000, 1024),
					2 => 1024,
					_ => self.r.below(30),
				};
				v.push(I::Add { data: bv(self.r.bytes(l as usize)) });
			}
		}
		bv(v)
	}
	fn storage(&mut self) -> Made {
		use pallet_stateful_storage::types::*;
		use pallet_stateful_storage::Call as S;
		let v = self.c.v;
		let items = self.r.pct(50);
		let (p, mut d) = self.acting();
		let mut by = self.key_of(p);
		if self.r.pct(30) {
			by = self.with_msa();
			d = self.msa(by);
		}
		let location = if items { storage::ITEMIZED } else { storage::PAGINATED };
		let signed = self.r.pct(40);
		let mut schema = if signed || self.r.pct(30) { self.schema_at(location) } else { self.granted(d, p, location) };
		let mut page_id = self.page_id();
		let hot = self.r.pct(self.c.hot);
		if hot {
			(by, d) = (*self.r.pick(&[0, 2]), 3);
			schema = if items { *self.r.pick(&[3, 3, 3, 4, 8]) } else { 6 };
			page_id = 0;
		}
		let h = storage::page_hash(if items { v.stor.items.get(&(d, schema)) } else { v.stor.pages.get(&(d, schema, page_id)) });
		let target_hash = self.target(h);
		let l = match self.r.below(10) {
			0 => 0,
			1 => 1024,
			_ => self.r.below(60),
		};
		let bytes = self.r.bytes(l as usize);
		let del = self.r.pct(30);
		if !signed {
			let c: C = if items {
				S::apply_item_actions { state_owner_msa_id: d, schema_id: schema, target_hash, actions: self.actions(d, schema) }.into()
			} else if del {
				S::delete_page { state_owner_msa_id: d, schema_id: schema, page_id, target_hash }.into()
			} else {
				S::upsert_page { state_owner_msa_id: d, schema_id: schema, page_id, target_hash, payload: bv(bytes) }.into()
			};
			return (by, c)
		}
		let k = self.key_of(d);
		let delegator_key = users::acc(k);
		let expiration = self.expires(storage::MORTALITY);
		let schema_id = schema;
		let msa_id = if self.wrong() { self.msa_id() } else { d };
		let v2 = self.r.pct(50);
		macro_rules! signed {
			($call:ident, $p:expr) => {{
				let payload = $p;
				let proof = self.proof(k, &payload.encode());
				S::$call { delegator_key, proof, payload }.into()
			}};
		}
		let c: C = match (items, del, v2) {
			(true, _, false) => signed!(apply_item_actions_with_signature, ItemizedSignaturePayload::<Runtime> { msa_id, schema_id, target_hash, expiration, actions: self.actions(d, schema) }),
			(true, _, true) => signed!(apply_item_actions_with_signature_v2, ItemizedSignaturePayloadV2::<Runtime> { schema_id, target_hash, expiration, actions: self.actions(d, schema) }),
			(_, true, false) => signed!(delete_page_with_signature, PaginatedDeleteSignaturePayload::<Runtime> { msa_id, schema_id, page_id, target_hash, expiration }),
			(_, true, true) => signed!(delete_page_with_signature_v2, PaginatedDeleteSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash, expiration }),
			(_, _, false) => signed!(upsert_page_with_signature, PaginatedUpsertSignaturePayload::<Runtime> { msa_id, schema_id, page_id, target_hash, expiration, payload: bv(bytes) }),
			(_, _, true) => signed!(upsert_page_with_signature_v2, PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash, expiration, payload: bv(bytes) }),
		};
		(if self.r.pct(60) { self.with_msa() } else { self.rich() }, c)
	}
	fn sched(&mut self) -> Sched {
		let at = self.c.relay;
		let mut s = Sched {
			start: match self.r.below(4) {
				0 => at.saturating_sub(self.r.below(60) as u32),
				1 => 0,
				_ => at + self.r.below(60) as u32,
			},
			period: self.r.range(1, 20) as u32,
			count: self.r.range(1, 5) as u32,
			per: 1 + self.r.below(2 * model::DOLLAR as u64) as u128,
		};
		if self.wrong() {
			match self.r.below(6) {
				0 => s.period = 0,
				1 => s.count = 0,
				2 => s.per = 0,
				3 => s.per = u128::MAX / 2,
				4 => s.period = u32::MAX,
				_ => s.start = u32::MAX,
			}
		}
		s
	}
	fn release(&mut self) -> Made {
		use pallet_time_release::ReleaseSchedule;
		use pallet_time_release::Call as T;
		let mk = |s: Sched| ReleaseSchedule { start: s.start, period: s.period, period_count: s.count, per_period: s.per };
		let dest = MultiAddress::Id(users::acc(self.any()));
		match self.r.below(100) {
			0..=9 => {
				// all but nothing, all but what keeps the account alive
				let w = self.any();
				let a = users::acc(w);
				let free = self.c.v.free(&a);
				let frozen = self.c.v.bal.freezes.get(&a).and_then(|f| f.values().max().copied()).unwrap_or(0);
				let left = *self.r.pick(&[0, 1, model::ED - 1, model::ED, model::ED + 1, frozen, frozen.saturating_sub(1), frozen + 1, frozen + model::ED]);
				let mut s = self.sched();
				s.count = 1;
				s.per = free.saturating_sub(left);
				let dest = if self.r.pct(25) { MultiAddress::Id(a) } else { dest };
				let c: C = T::transfer { dest, schedule: mk(s) }.into();
				if self.r.pct(20) { (w, c) } else { (users::SUDO, sudo_as(w, c)) }
			},
			10..=49 => {
				let s = self.sched();
				(if self.r.pct(85) { self.rich() } else { self.any() }, T::transfer { dest, schedule: mk(s) }.into())
			},
			50..=67 => {
				let l: Vec<usize> = self.c.v.tr.map.keys().filter_map(users::index).collect();
				(if l.is_empty() { self.any() } else { *self.r.pick(&l) }, T::claim {}.into())
			},
			68..=87 => {
				let l: Vec<usize> = self.c.v.tr.map.keys().filter_map(users::index).collect();
				let d = if l.is_empty() { self.any() } else { *self.r.pick(&l) };
				(self.rich(), T::claim_for { dest: MultiAddress::Id(users::acc(d)) }.into())
			},
			_ => {
				let n = if self.wrong() { *self.r.pick(&[50, 51]) } else { self.r.below(4) };
				let v: Vec<_> = (0..n).map(|_| mk(self.sched())).collect();
				let c: C = T::update_release_schedules { who: dest, release_schedules: v }.into();
				if self.wrong() {
					(self.any(), c)
				} else {
					(users::SUDO, sudo(c))
				}
			},
		}
	}
	fn balance(&mut self) -> Made {
		use simsdk::pallets::balances::Call as B;
		let w = if self.r.pct(75) { self.rich() } else { self.any() };
		let a = users::acc(w);
		let free = self.c.v.free(&a);
		let frozen = self.c.v.bal.freezes.get(&a).and_then(|f| f.values().max().copied()).unwrap_or(0);
		let value = match self.r.below(10) {
			0 => free,
			1 => free.saturating_sub(frozen),
			2 => free.saturating_sub(frozen).saturating_sub(model::DOLLAR / 10),
			3 => 0,
			4 => model::ED - 1,
			_ => model::ED + self.r.below((20 * model::DOLLAR) as u64) as u128,
		};
		let dest = MultiAddress::Id(users::acc(self.any()));
		(w, B::transfer_keep_alive { dest, value }.into())
	}
	fn proxy_type(&mut self) -> ProxyType {
		*self.r.pick(&[ProxyType::Any, ProxyType::NonTransfer, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking, ProxyType::CancelProxy])
	}
	fn proxy_admin(&mut self) -> Made {
		use simsdk::pallets::proxy::Call as P;
		let w = self.rich();
		let defs = self.c.v.prox.map.get(&users::acc(w)).cloned().unwrap_or_default();
		let t = self.proxy_type();
		if !defs.is_empty() && self.r.pct(20) {
			let d = self.r.pick(&defs).clone();
			return (w, P::remove_proxy { delegate: MultiAddress::Id(d.0), proxy_type: t, delay: d.2 }.into())
		}
		let delay = if self.r.pct(85) { 0 } else { 1 };
		let delegate = MultiAddress::Id(users::acc(self.any()));
		(w, P::add_proxy { delegate, proxy_type: t, delay }.into())
	}
	fn eligible(&mut self) -> Made {
		for _ in 0..6 {
			let k = *self.r.pick(&[Do::Msa, Do::Deleg, Do::Handle, Do::Message, Do::Storage, Do::Storage]);
			let m = self.made(k, 3);
			if validity::stable_weight(&m.1).is_some() || self.bad {
				return m
			}
		}
		self.message()
	}
	fn paid(&mut self) -> Made {
		use pallet_frequency_tx_payment::Call as F;
		let (mut w, c) = self.eligible();
		let has = |g: &Self, w: usize| g.c.v.cap.cap.contains_key(&g.msa(w));
		if !has(self, w) && self.r.pct(85) {
			let p = self.provider();
			w = self.key_of(p);
		}
		if self.r.pct(25) {
			let n = if self.wrong() { *self.r.pick(&[9, 10]) } else { self.r.below(4) };
			let mut calls = vec![c];
			if n > 4 && self.r.pct(70) {
				// all of them will do if one does
				let payload = self.r.bytes(3);
				let c: C = pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 1, payload }.into();
				return (w, F::pay_with_capacity_batch_all { calls: vec![c; n as usize + 1] }.into())
			}
			for _ in 0..n {
				let x = self.eligible().1;
				calls.push(x);
			}
			return (w, F::pay_with_capacity_batch_all { calls }.into())
		}
		(w, F::pay_with_capacity { call: Box::new(c) }.into())
	}
	fn wrap(&mut self, depth: u32) -> Made {
		if self.c.w[Do::Proxy as usize] > 0 && self.r.pct(12) {
			return self.together(depth)
		}
		use simsdk::pallets::proxy::Call as P;
		use simsdk::pallets::utility::Call as U;
		let v = self.c.v;
		match self.r.below(100) {
			0..=49 => {
				let n = if self.r.pct(90) { self.r.range(1, 4) } else { self.r.range(5, 12) };
				let mut calls = vec![];
				let mut by = self.any();
				for i in 0..n {
					let (w, c) = self.some(depth);
					if i == 0 {
						by = w;
					}
					calls.push(c);
				}
				(
					by,
					match self.r.below(3) {
						0 => U::batch { calls }.into(),
						1 => U::batch_all { calls }.into(),
						_ => U::force_batch { calls }.into(),
					},
				)
			},
			50..=59 => {
				let (w, c) = self.some(depth);
				let l: Vec<usize> = (0..users::N).collect();
				let _ = l;
				(w, U::as_derivative { index: self.r.below(2) as u16, call: Box::new(c) }.into())
			},
			60..=91 => {
				let all: Vec<(Acc, (Acc, u8, u32))> = v.prox.map.iter().flat_map(|(a, l)| l.iter().map(move |x| (a.clone(), x.clone()))).collect();
				let (w, c) = self.some(depth);
				let force = if self.r.pct(25) { Some(self.proxy_type()) } else { None };
				if all.is_empty() || self.wrong() {
					let real = MultiAddress::Id(users::acc(self.any()));
					return (w, P::proxy { real, force_proxy_type: force, call: Box::new(c) }.into())
				}
				// somebody who may act for the one the call was made for
				let mine: Vec<_> = all.iter().filter(|x| x.0 == users::acc(w)).cloned().collect();
				let (real, d) = if mine.is_empty() || self.r.pct(25) { self.r.pick(&all).clone() } else { self.r.pick(&mine).clone() };
				(users::index(&d.0).unwrap_or(w), P::proxy { real: MultiAddress::Id(real), force_proxy_type: force, call: Box::new(c) }.into())
			},
			_ => {
				let (by, c) = self.some(depth);
				let w = if self.wrong() { self.any() } else { users::SUDO };
				if self.r.pct(40) {
					let who = if self.r.pct(75) { by } else { self.any() };
					return (w, sudo_as(who, c))
				}
				(w, sudo(c))
			},
		}
	}
	/// what the base filter keeps from users, mostly by the one way that is left
	fn filtered(&mut self, by: usize, c: C) -> Made {
		if self.r.pct(30) {
			return (by, c)
		}
		(if self.wrong() { by } else { users::SUDO }, sudo_as(by, c))
	}
	/// a user's motion
	fn petition(&mut self) -> Made {
		use pallet_schemas::Call as S;
		if self.r.pct(40) {
			let l = if self.wrong() { 17 } else { self.r.below(17) };
			return (self.with_msa(), pallet_msa::Call::propose_to_be_provider { provider_name: self.r.bytes(l as usize) }.into())
		}
		let w = self.any();
		if self.r.pct(35) {
			return (w, S::propose_to_create_schema_name { schema_id: self.nameless(), schema_name: bv(self.schema_name()) }.into())
		}
		let model_type = if self.r.pct(80) { ModelType::AvroBinary } else { ModelType::Parquet };
		let model = bv(self.model_(&model_type));
		let payload_location = *self.r.pick(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]);
		let settings = bv(self.r.pick(&[vec![], vec![], vec![SchemaSetting::AppendOnly], vec![SchemaSetting::SignatureRequired]]).clone());
		if self.r.pct(40) {
			return (w, S::propose_to_create_schema { model, model_type, payload_location, settings }.into())
		}
		let schema_name = if self.r.pct(60) { Some(bv(self.schema_name())) } else { None };
		(w, S::propose_to_create_schema_v2 { model, model_type, payload_location, settings, schema_name }.into())
	}
	/// a call of several accounts
	fn together(&mut self, depth: u32) -> Made {
		use simsdk::codec::Decode;
		use simsdk::frame_support::dispatch::GetDispatchInfo;
		use simsdk::pallets::offices::multisig::{Call as S, Timepoint};
		let e = &self.c.v.ext;
		let (team, mut threshold) = *self.r.pick(&TEAMS);
		let mut by = *self.r.pick(team);
		let other = |by: usize, team: &[usize]| -> Vec<Acc> {
			let mut l: Vec<Acc> = team.iter().filter(|x| **x != by).map(|x| users::acc(*x)).collect();
			l.sort();
			l
		};
		if self.wrong() {
			by = self.any();
		}
		if threshold < 2 && !self.wrong() {
			let (_, c) = self.some(depth);
			return (by, S::as_multi_threshold_1 { other_signatories: other(by, team), call: Box::new(c) }.into())
		}
		// mostly go on with one that is open; the call is not on chain, but among those sent
		let open: Vec<_> = e.multi.iter().collect();
		let sent: Vec<C> = self
			.c
			.sent
			.iter()
			.filter_map(|x| match &x.function {
				C::Multisig(S::as_multi { call, .. }) => Some((**call).clone()),
				_ => None,
			})
			.collect();
		if !open.is_empty() && self.r.pct(75) {
			let ((id, h), m) = *self.r.pick(&open);
			let Some((team, t)) = TEAMS.iter().find(|t| team_account(t) == *id) else {
				return self.balance()
			};
			threshold = *t;
			let fresh: Vec<usize> = team.iter().copied().filter(|i| !m.approvals.contains(&users::acc(*i))).collect();
			by = if fresh.is_empty() || self.wrong() { *self.r.pick(team) } else { *self.r.pick(&fresh) };
			let mut at = Timepoint { height: m.when.0, index: m.when.1 };
			if self.wrong() {
				at.index += 1;
			}
			if self.wrong() {
				threshold = self.r.below(4) as u16;
			}
			let call = sent.iter().find(|c| simsdk::hashing::blake2_256(&simsdk::codec::Encode::encode(*c)) == *h);
			let other_signatories = other(by, team);
			return match call {
				Some(c) if self.r.pct(70) => {
					let mut max_weight = c.get_dispatch_info().weight;
					if self.wrong() {
						max_weight = max_weight.saturating_sub(simsdk::sp_weights::Weight::from_parts(1, 0));
					}
					(by, S::as_multi { threshold, other_signatories, maybe_timepoint: Some(at), call: Box::new(c.clone()), max_weight }.into())
				},
				_ if self.r.pct(25) => (by, S::cancel_as_multi { threshold, other_signatories, timepoint: at, call_hash: *h }.into()),
				_ => (by, S::approve_as_multi { threshold, other_signatories, maybe_timepoint: Some(at), call_hash: *h, max_weight: Default::default() }.into()),
			}
		}
		let (_, c) = self.some(depth);
		// what is sent comes back with its bytes
		let c = C::decode(&mut &simsdk::codec::Encode::encode(&c)[..]).unwrap_or(c);
		let other_signatories = other(by, team);
		let max_weight = c.get_dispatch_info().weight;
		(by, S::as_multi { threshold, other_signatories, maybe_timepoint: None, call: Box::new(c), max_weight }.into())
	}
	/// a decision of an office
	fn office(&mut self) -> C {
		use simsdk::pallets::offices::{collator_selection::Call as S, democracy::Call as D, preimage::Call as I, scheduler::Call as P, treasury::Call as T};
		let e = &self.c.v.ext;
		let n = self.c.n;
		let near = |r: &mut Rng, n: u32| r.below(n as u64 + 1) as u32;
		let hash = |r: &mut Rng| Hash::from([r.below(6) as u8; 32]);
		match self.r.below(40) {
			0..=2 => T::approve_proposal { proposal_id: near(&mut self.r, e.spend_count) }.into(),
			3..=4 => T::reject_proposal { proposal_id: near(&mut self.r, e.spend_count) }.into(),
			5..=6 => {
				let proposal_id = if e.approvals.is_empty() { near(&mut self.r, e.spend_count) } else { *self.r.pick(&e.approvals) };
				T::remove_approval { proposal_id }.into()
			},
			7 => T::spend_local { amount: self.r.below(1000) as Bal, beneficiary: users::acc(self.any()) }.into(),
			8..=15 => {
				let call = Box::new(match self.r.below(4) {
					0 => simsdk::frame_system::Call::remark { remark: vec![1] }.into(),
					1 => self.office(),
					_ => self.reserved(),
				});
				let priority = self.r.below(4) as u8 * 63;
				let maybe_periodic = if self.r.pct(25) { Some((self.r.below(4) as u32, self.r.below(5) as u32)) } else { None };
				let mut when = n + self.r.range(1, 12) as u32;
				if self.wrong() {
					when = n;
				}
				match self.r.below(5) {
					0 => P::schedule_after { after: self.r.below(8) as u32, maybe_periodic, priority, call }.into(),
					1 | 2 => P::schedule_named { id: [self.r.below(5) as u8; 32], when, maybe_periodic, priority, call }.into(),
					_ => P::schedule { when, maybe_periodic, priority, call }.into(),
				}
			},
			16..=18 => {
				let l: Vec<(u32, u32)> = e.agenda.iter().flat_map(|(w, l)| (0..l.len() as u32).map(move |i| (*w, i))).collect();
				let (when, index) = if l.is_empty() || self.wrong() { (n + 1, 0) } else { *self.r.pick(&l) };
				if self.r.pct(50) {
					P::cancel { when, index }.into()
				} else {
					P::cancel_named { id: [self.r.below(5) as u8; 32] }.into()
				}
			},
			19 => D::external_propose { proposal: hash(&mut self.r) }.into(),
			20..=21 => D::external_propose_majority { proposal: hash(&mut self.r) }.into(),
			22..=23 => D::external_propose_default { proposal: hash(&mut self.r) }.into(),
			24..=27 => {
				let proposal_hash = e.next.map(|n| Hash::from(n.0)).filter(|_| !self.wrong()).unwrap_or(Hash::from([1; 32]));
				if self.r.pct(25) {
					return D::veto_external { proposal_hash }.into()
				}
				let fast = crate::model::offices::FAST;
				let voting_period = *self.r.pick(&[0, 1, fast - 1, fast, fast, fast + 1, 5 * fast]);
				D::fast_track { proposal_hash, voting_period, delay: self.r.below(10) as u32 }.into()
			},
			28 => D::emergency_cancel { ref_index: near(&mut self.r, e.ref_count) }.into(),
			29 => D::cancel_referendum { ref_index: near(&mut self.r, e.ref_count) }.into(),
			30 => D::clear_public_proposals {}.into(),
			31 => D::blacklist { proposal_hash: hash(&mut self.r), maybe_ref_index: if self.r.pct(50) { Some(near(&mut self.r, e.ref_count)) } else { None } }.into(),
			32..=33 => D::cancel_proposal { prop_index: near(&mut self.r, e.prop_count) }.into(),
			34..=35 => {
				let hash = hash(&mut self.r);
				if self.r.pct(60) {
					I::request_preimage { hash }.into()
				} else {
					I::unrequest_preimage { hash }.into()
				}
			},
			36 => S::set_invulnerables { new: (0..self.r.below(5)).map(|_| users::acc(self.r.idx(8))).collect() }.into(),
			37 => S::add_invulnerable { who: users::acc(self.r.idx(8)) }.into(),
			38 => S::remove_invulnerable { who: users::acc(self.r.idx(8)) }.into(),
			_ =>
				if self.r.pct(50) {
					S::set_desired_candidates { max: self.r.below(5) as u32 }.into()
				} else {
					S::set_candidacy_bond { bond: self.r.below(1000) as Bal }.into()
				},
		}
	}
	/// What anybody may put, or a decision by a body, by root or by somebody who may not.
	fn by_office(&mut self) -> Made {
		use simsdk::pallets::collective::Call as G;
		use simsdk::pallets::offices::{democracy::Call as D, treasury::Call as T};
		match self.r.below(100) {
			0..=6 => (self.any(), T::propose_spend { value: self.r.below(1000) as Bal, beneficiary: users::acc(self.any()) }.into()),
			7..=12 => (self.any(), D::propose { proposal: Hash::from([self.r.below(6) as u8; 32]) }.into()),
			13..=22 => {
				let c = self.office();
				(if self.wrong() { self.any() } else { users::SUDO }, sudo(c))
			},
			23..=26 => {
				let c = self.office();
				(self.any(), c)
			},
			27..=46 => {
				// one member speaks
				let b = self.r.pct(75) as usize;
				let l: Vec<usize> = self.c.v.gov.body[b].members.iter().filter_map(users::index).collect();
				let by = if l.is_empty() || self.wrong() { self.any() } else { *self.r.pick(&l) };
				let p = Box::new(self.office());
				let length_bound = 100_000;
				if self.r.pct(50) {
					let threshold = self.r.below(2) as u32;
					return (by, if b == 0 { C::Council(G::propose { threshold, proposal: p, length_bound }) } else { C::TechnicalCommittee(G::propose { threshold, proposal: p, length_bound }) })
				}
				(by, if b == 0 { C::Council(G::execute { proposal: p, length_bound }) } else { C::TechnicalCommittee(G::execute { proposal: p, length_bound }) })
			},
			_ => self.govern(),
		}
	}
	/// something not everybody may decide
	fn reserved(&mut self) -> C {
		let share = if self.c.w[Do::Office as usize] > 0 { 70 } else { 0 };
		if share > 0 && self.r.pct(share) {
			return self.office()
		}
		let inner = |c: C| match c {
			C::Sudo(simsdk::pallets::sudo::Call::sudo { call } | simsdk::pallets::sudo::Call::sudo_as { call, .. }) => *call,
			c => c,
		};
		match self.r.below(12) {
			0..=2 => {
				let key = self.with_msa();
				let l = self.r.below(18) as usize;
				pallet_msa::Call::create_provider_via_governance { provider_key: users::acc(key), provider_name: self.r.bytes(l) }.into()
			},
			3..=6 => inner(self.schema_call().1),
			7 => pallet_schemas::Call::set_max_schema_model_bytes { max_size: self.r.range(500, 2000) as u32 }.into(),
			8 => pallet_capacity::Call::set_epoch_length { length: self.r.range(1, 9) as u32 }.into(),
			9 => pallet_time_release::Call::update_release_schedules { who: MultiAddress::Id(users::acc(self.any())), release_schedules: vec![] }.into(),
			10 => {
				let calls = vec![self.reserved(), self.reserved()];
				if self.r.pct(50) {
					simsdk::pallets::utility::Call::batch { calls }.into()
				} else {
					simsdk::pallets::utility::Call::batch_all { calls }.into()
				}
			},
			_ => inner(self.some(2).1),
		}
	}
	fn govern(&mut self) -> Made {
		use simsdk::codec::Decode;
		use simsdk::frame_support::dispatch::GetDispatchInfo;
		let v = self.c.v;
		let b = self.r.pct(if self.c.w[Do::Office as usize] > 0 { 50 } else { 25 }) as usize;
		let seat: Vec<usize> = v.gov.body[b].members.iter().filter_map(users::index).collect();
		let by = if seat.is_empty() || self.wrong() { self.any() } else { *self.r.pick(&seat) };
		macro_rules! either {
			($n:ident { $($f:ident : $e:expr),* }) => {{
				$( let $f = $e; )*
				if b == 0 {
					C::Council(simsdk::pallets::collective::Call::$n { $($f),* })
				} else {
					C::TechnicalCommittee(simsdk::pallets::collective::Call::$n { $($f),* })
				}
			}};
		}
		let body = &v.gov.body[b];
		let mut open = body.open.clone();
		if open.is_empty() || self.wrong() {
			open = v.gov.body.iter().flat_map(|b| b.open.clone()).collect();
		}
		let h = if open.is_empty() { Default::default() } else { *self.r.pick(&open) };
		let votes = body.votes.get(&h);
		let mut index = votes.map(|v| v.index).unwrap_or(0);
		if self.wrong() {
			index = index.wrapping_add(1);
		}
		let k = self.r.below(100);
		match k {
			0..=21 => self.petition(),
			22..=36 => {
				let p = self.reserved();
				let seats = seat.len() as u64;
				let threshold = self.r.below(seats + 2) as u32;
				let mut length_bound = p.encode().len() as u32;
				if self.wrong() {
					length_bound -= 1;
				}
				(by, either!(propose { threshold: threshold, proposal: Box::new(p), length_bound: length_bound }))
			},
			37..=41 => {
				let p = self.reserved();
				let length_bound = p.encode().len() as u32 - self.wrong() as u32;
				(by, either!(execute { proposal: Box::new(p), length_bound: length_bound }))
			},
			42..=45 => {
				let w = if self.wrong() { by } else { users::SUDO };
				let n = self.r.range(1, 6);
				let mut m: Vec<usize> = (0..n).map(|_| self.r.idx(9)).collect();
				m.sort();
				m.dedup();
				let m: Vec<Acc> = m.into_iter().map(users::acc).collect();
				let prime = if self.r.pct(30) { Some(self.r.pick(&m).clone()) } else { None };
				let c = either!(set_members { new_members: m, prime: prime, old_count: 3 });
				(w, if w == users::SUDO { sudo(c) } else { c })
			},
			46..=47 => {
				let w = if self.wrong() { by } else { users::SUDO };
				let c = either!(disapprove_proposal { proposal_hash: Hash::from(h) });
				(w, if w == users::SUDO { sudo(c) } else { c })
			},
			48..=52 => {
				let c = self.reserved();
				(if self.r.pct(60) { by } else { self.any() }, c)
			},
			53..=76 => {
				// mostly somebody whose vote changes something
				let quiet: Vec<usize> = votes.map(|v| seat.iter().copied().filter(|i| !v.ayes.contains(&users::acc(*i))).collect()).unwrap_or_default();
				let by = if quiet.is_empty() || self.wrong() { by } else { *self.r.pick(&quiet) };
				// a motion that lacks one vote or two
				let near = body.votes.iter().filter(|x| (x.1.ayes.len() as u32) < x.1.threshold && x.1.threshold as usize <= seat.len()).max_by_key(|x| (x.1.ayes.len(), x.1.index));
				if let (Some((h, x)), true) = (near, self.r.pct(50)) {
					let l: Vec<usize> = seat.iter().copied().filter(|i| !x.ayes.contains(&users::acc(*i))).collect();
					if !l.is_empty() {
						return (*self.r.pick(&l), either!(vote { proposal: Hash::from(*h), index: x.index, approve: true }))
					}
				}
				let yes = self.r.pct(75);
				(by, either!(vote { proposal: Hash::from(h), index: index, approve: yes }))
			},
			_ => {
				let ripe: Vec<[u8; 32]> = body.votes.iter().filter(|x| x.1.ayes.len() as u32 >= x.1.threshold).map(|x| *x.0).collect();
				let h = if ripe.is_empty() || self.wrong() { h } else { *self.r.pick(&ripe) };
				let index = if ripe.contains(&h) && !self.wrong() { body.votes[&h].index } else { index };
				let bytes = body.calls.get(&h).cloned().unwrap_or_default();
				let w = C::decode(&mut &bytes[..]).map(|c| c.get_dispatch_info().weight).unwrap_or_default();
				let mut length_bound = bytes.len() as u32;
				let mut weight = w;
				if self.wrong() {
					length_bound = length_bound.saturating_sub(1);
				}
				if self.wrong() {
					weight = w.saturating_sub(simsdk::sp_weights::Weight::from_parts(1, 0));
				}
				(self.any(), either!(close { proposal_hash: Hash::from(h), index: index, proposal_weight_bound: weight, length_bound: length_bound }))
			},
		}
	}
	/// a signed payload somebody has seen, sent again
	fn replay(&mut self) -> Made {
		if self.c.bank.is_empty() {
			return self.msa_call()
		}
		let c = self.r.pick(self.c.bank).clone();
		let by = if self.r.pct(50) { self.with_msa() } else { self.any() };
		if self.r.pct(30) {
			return (by, pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(c) }.into())
		}
		(by, c)
	}
	/// calls no profile is about
	fn fuzz(&mut self) -> Made {
		use simsdk::frame_system::Call as S;
		let w = self.any();
		match self.r.below(3) {
			0 => (w, S::remark { remark: self.r.bytes(8) }.into()),
			1 => (w, S::set_storage { items: vec![(vec![1], vec![2])] }.into()),
			_ => {
				let (_, c) = self.some(0);
				(w, c)
			},
		}
	}
	fn passkey(&mut self) -> UncheckedExtrinsic {
		use pallet_passkey::types::*;
		let (mut w, mut c) = self.balance();
		if self.wrong() {
			let m = self.some(0);
			w = m.0;
			c = m.1;
		}
		let public: Vec<u8> = (0..33).map(|i| (i as u8).wrapping_mul(7).wrapping_add(w as u8)).collect();
		let key: [u8; 33] = public.clone().try_into().unwrap();
		let mut nonce = (self.c.pending)(&users::acc(w));
		if self.wrong() {
			nonce = *self.r.pick(&[nonce.wrapping_sub(1), nonce + 1, nonce + 2, 0, u32::MAX]);
		}
		let proof = self.proof(w, &public);
		let mut account = users::acc(w);
		if self.wrong() {
			account = users::acc(self.any());
		}
		let (mut signature, mut json) = (self.r.bytes(64), br##"{"type":"webauthn.get","challenge":"#rplc#","origin":"https://a.b"}"##.to_vec());
		if self.r.pct(5) {
			json = self.r.bytes(20);
		} else {
			signature[0] = 0x30;
		}
		let payload = PasskeyPayload::<Runtime> {
			passkey_public_key: make_key(key),
			verifiable_passkey_signature: VerifiablePasskeySignature { signature: bv(signature), authenticator_data: bv(self.r.bytes(37)), client_data_json: bv(json) },
			passkey_call: PasskeyCall { account_id: account, account_nonce: nonce, account_ownership_proof: proof, call: Box::new(c) },
		};
		UncheckedExtrinsic::new_unsigned(pallet_passkey::Call::proxy { payload }.into())
	}
}
fn make_key(k: [u8; 33]) -> pallet_passkey::types::PasskeyPublicKey {
	k
}
type AddKeyData_ = pallet_msa::types::AddKeyData<Runtime>;
pub fn sudo_as(who: usize, c: C) -> C {
	simsdk::pallets::sudo::Call::sudo_as { who: MultiAddress::Id(users::acc(who)), call: Box::new(c) }.into()
}
pub fn sudo(c: C) -> C {
	simsdk::pallets::sudo::Call::sudo { call: Box::new(c) }.into()
}
/// Calls that carry somebody's signed payload.
pub fn carries(c: &C, out: &mut Vec<C>) {
	use pallet_frequency_tx_payment::Call as F;
	match c {
		C::Msa(pallet_msa::Call::grant_delegation { .. } | pallet_msa::Call::create_sponsored_account_with_delegation { .. } | pallet_msa::Call::add_public_key_to_msa { .. })
		| C::Handles(pallet_handles::Call::claim_handle { .. } | pallet_handles::Call::change_handle { .. }) => out.push(c.clone()),
		C::StatefulStorage(s) => {
			use pallet_stateful_storage::Call as S;
			if !matches!(s, S::apply_item_actions { .. } | S::upsert_page { .. } | S::delete_page { .. }) {
				out.push(c.clone())
			}
		},
		C::FrequencyTxPayment(F::pay_with_capacity { call }) => carries(call, out),
		C::FrequencyTxPayment(F::pay_with_capacity_batch_all { calls }) => calls.iter().for_each(|c| carries(c, out)),
		_ => (),
	}
}
#[allow(dead_code)]
pub fn unused() -> u32 {
	release::MAX_SCHEDULES as u32
}
