//! Holds an authored block against the reference, transaction by transaction.
use crate::chain::*;
use crate::model::validity::{self, Chain, Fee};
use crate::model::{Env, Stop, M};
use crate::view::*;
use frequency_runtime::{RuntimeCall, RuntimeEvent};
use simsdk::sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidityError};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol {
	pub prop: &'static str,
	/// other properties the failing call is about
	pub also: Vec<&'static str>,
	/// identifies the kind of failure
	pub sig: String,
	pub text: String,
}
#[derive(Clone, Default)]
pub struct Hist {
	/// consumed payload signatures
	pub sigs: BTreeSet<[u8; 32]>,
	/// (canonical base, suffix) ever assigned
	pub suffixes: BTreeSet<(Vec<u8>, u16)>,
	pub txs: BTreeMap<Hash, Acc>,
	/// what every append-only page held
	pub msas: BTreeSet<u64>,
}
#[derive(Default, Clone)]
pub struct Cov {
	pub n: BTreeMap<String, u64>,
	pub states: BTreeSet<u64>,
	/// (kind of call, outcome) pairs
	pub shapes: BTreeMap<String, u64>,
}
impl Cov {
	pub fn add(&mut self, k: impl Into<String>, x: u64) {
		*self.n.entry(k.into()).or_default() += x;
	}
	pub fn shape(&mut self, k: String) {
		*self.shapes.entry(k).or_default() += 1;
	}
	pub fn merge(&mut self, o: &Cov) {
		for (k, x) in &o.n {
			*self.n.entry(k.clone()).or_default() += x;
		}
		for (k, x) in &o.shapes {
			*self.shapes.entry(k.clone()).or_default() += x;
		}
		self.states.extend(o.states.iter().copied());
	}
}

/// The property a call is about.
pub fn about(c: &RuntimeCall) -> &'static str {
	use frequency_runtime::RuntimeCall as C;
	use pallet_frequency_tx_payment::Call as F;
	use pallet_msa::Call as A;
	use simsdk::pallets::{proxy::Call as P, sudo::Call as S, utility::Call as U};
	match c {
		C::Msa(A::grant_delegation { .. } | A::revoke_delegation_by_delegator { .. } | A::revoke_delegation_by_provider { .. } | A::revoke_schema_permissions { .. }) => "C03",
		C::Msa(A::create_provider { .. } | A::create_provider_via_governance { .. }) => "C03",
		C::Treasury(_) | C::Scheduler(_) | C::Democracy(_) | C::Preimage(_) | C::CollatorSelection(_) => "C27",
		C::Msa(A::propose_to_be_provider { .. }) | C::Council(_) | C::TechnicalCommittee(_) => "C26",
		C::Msa(_) => "C01",
		C::Handles(_) => "C06",
		C::Capacity(pallet_capacity::Call::withdraw_unstaked { .. } | pallet_capacity::Call::set_epoch_length { .. }) => "C10",
		C::Capacity(_) => "C09",
		C::Messages(_) => "C14",
		C::Schemas(
			pallet_schemas::Call::propose_to_create_schema { .. } | pallet_schemas::Call::propose_to_create_schema_v2 { .. } | pallet_schemas::Call::propose_to_create_schema_name { .. },
		) => "C26",
		C::Schemas(_) => "C15",
		C::StatefulStorage(_) => "C12",
		C::TimeRelease(_) | C::Balances(_) => "C16",
		C::Passkey(_) => "C17",
		C::FrequencyTxPayment(F::pay_with_capacity { call }) => about(call),
		C::FrequencyTxPayment(F::pay_with_capacity_batch_all { calls }) | C::Utility(U::batch { calls } | U::batch_all { calls } | U::force_batch { calls }) => calls.first().map(about).unwrap_or("C19"),
		C::Utility(U::as_derivative { call, .. }) | C::Proxy(P::proxy { call, .. }) | C::Sudo(S::sudo { call } | S::sudo_as { call, .. }) => about(call),
		_ => "C19",
	}
}
/// Every property a call can break, its own first.
pub fn related(c: &RuntimeCall) -> Vec<&'static str> {
	let mut o = vec![];
	fn go(c: &RuntimeCall, o: &mut Vec<&'static str>) {
		use frequency_runtime::RuntimeCall as C;
		use pallet_frequency_tx_payment::Call as F;
		use pallet_handles::Call as H;
		use pallet_msa::Call as A;
		use simsdk::pallets::{proxy::Call as P, sudo::Call as S, utility::Call as U};
		let l: &[&'static str] = match c {
			C::Msa(A::grant_delegation { .. }) => &["C03", "C02"],
			C::Msa(A::create_sponsored_account_with_delegation { .. }) => &["C01", "C02", "C03"],
			C::Msa(A::add_public_key_to_msa { .. }) => &["C01", "C02"],
			C::Msa(A::revoke_delegation_by_delegator { .. } | A::revoke_delegation_by_provider { .. }) => &["C03", "C04"],
			C::Msa(A::delete_msa_public_key { .. } | A::retire_msa { .. }) => &["C01", "C04"],
			C::Msa(A::create_provider { .. } | A::create_provider_via_governance { .. } | A::propose_to_be_provider { .. }) => &["C03", "C26"],
			C::Msa(_) => &["C01"],
			C::Handles(H::retire_handle { .. }) => &["C06", "C07", "C08", "C04"],
			C::Handles(_) => &["C06", "C07", "C08"],
			C::Capacity(pallet_capacity::Call::set_epoch_length { .. }) => &["C10", "C26"],
			C::Capacity(_) => &["C09", "C10", "C11"],
			C::StatefulStorage(_) => &["C12", "C13"],
			C::Messages(_) => &["C14", "C03"],
			C::FrequencyTxPayment(_) => &["C11"],
			C::Utility(_) | C::Proxy(_) => &["C19"],
			C::Schemas(_) => &["C15", "C26"],
			C::Council(_) | C::TechnicalCommittee(_) => &["C26", "C03", "C15"],
			C::TimeRelease(pallet_time_release::Call::update_release_schedules { .. }) => &["C16", "C26"],
			C::TimeRelease(_) | C::Balances(_) => &["C16"],
			C::Passkey(_) => &["C17"],
			C::Treasury(_) | C::Scheduler(_) | C::Democracy(_) | C::Preimage(_) | C::CollatorSelection(_) => &["C27"],
			C::Multisig(_) => &["C19"],
			_ => &[],
		};
		for p in l {
			if !o.contains(p) {
				o.push(p)
			}
		}
		match c {
			C::FrequencyTxPayment(F::pay_with_capacity { call }) => go(call, o),
			C::FrequencyTxPayment(F::pay_with_capacity_batch_all { calls }) | C::Utility(U::batch { calls } | U::batch_all { calls } | U::force_batch { calls }) => calls.iter().for_each(|c| go(c, o)),
			C::Utility(U::as_derivative { call, .. }) | C::Proxy(P::proxy { call, .. }) | C::Sudo(S::sudo { call } | S::sudo_as { call, .. }) => go(call, o),
			C::Council(simsdk::pallets::collective::Call::propose { proposal, .. } | simsdk::pallets::collective::Call::execute { proposal, .. }) => go(proposal, o),
			C::TechnicalCommittee(simsdk::pallets::collective::Call::propose { proposal, .. } | simsdk::pallets::collective::Call::execute { proposal, .. }) => go(proposal, o),
			C::Multisig(simsdk::pallets::offices::multisig::Call::as_multi_threshold_1 { call, .. } | simsdk::pallets::offices::multisig::Call::as_multi { call, .. }) => go(call, o),
			C::Scheduler(
				simsdk::pallets::offices::scheduler::Call::schedule { call, .. }
				| simsdk::pallets::offices::scheduler::Call::schedule_after { call, .. }
				| simsdk::pallets::offices::scheduler::Call::schedule_named { call, .. },
			) => go(call, o),
			C::Passkey(pallet_passkey::Call::proxy { payload }) => go(&payload.passkey_call.call, o),
			_ => (),
		}
	}
	go(c, &mut o);
	o
}
/// Whether this cannot be a signature of the passkey over the call: no challenge for it, or no DER encoded signature.
fn unsigned(p: &pallet_passkey::PasskeyPayload<frequency_runtime::Runtime>) -> bool {
	let v = &p.verifiable_passkey_signature;
	let challenge = pallet_passkey::CHALLENGE_PLACEHOLDER.as_bytes();
	v.authenticator_data.len() < 37 || v.signature.first() != Some(&0x30) || !v.client_data_json.windows(challenge.len()).any(|w| w == challenge)
}
fn first<K: Ord + Debug, V: PartialEq + Debug>(what: &str, want: &BTreeMap<K, V>, got: &BTreeMap<K, V>) -> Option<String> {
	for (k, w) in want {
		match got.get(k) {
			Some(g) if g == w => (),
			g => return Some(format!("{}[{:?}] is {} and should be {:?}", what, k, g.map(|g| cut(format!("{:?}", g))).unwrap_or("absent".into()), cut(format!("{:?}", w)))),
		}
	}
	got.iter().find(|(k, _)| !want.contains_key(k)).map(|(k, g)| format!("{}[{:?}] should not exist but is {}", what, k, cut(format!("{:?}", g))))
}
pub fn cut(s: String) -> String {
	if s.len() <= 300 {
		return s
	}
	let mut i = 300;
	while !s.is_char_boundary(i) {
		i -= 1;
	}
	format!("{}…", &s[..i])
}
/// Differences by property.
pub fn compare(want: &View, got: &View, m: &M, fee: Option<&Fee>, call: Option<&RuntimeCall>) -> Vec<(&'static str, String)> {
	let mut o: Vec<(&'static str, String)> = vec![];
	let mut put = |p: &'static str, d: Option<String>| {
		if let Some(d) = d {
			o.push((p, d))
		}
	};
	if want.msa != got.msa {
		put("C01", (want.msa.max_id != got.msa.max_id).then(|| format!("the MSA id counter is {} and should be {}", got.msa.max_id, want.msa.max_id)));
		put("C01", first("MSA of key", &want.msa.keys, &got.msa.keys));
		put("C01", first("number of keys", &want.msa.count, &got.msa.count));
	}
	if want.del != got.del {
		put("C03", first("delegation", &want.del.map, &got.del.map));
		put("C03", first("provider", &want.del.prov, &got.del.prov));
	}
	if want.sig != got.sig {
		let short = |s: &SigD| (s.list.len(), s.ptr.as_ref().map(|p| (p.1, p.3)));
		put("C02", Some(format!("the signature registry is {:?} and should be {:?}", short(&got.sig), short(&want.sig))));
	}
	if want.cap != got.cap {
		let cap = call.map(|c| about(c) == "C09" || about(c) == "C10").unwrap_or(true);
		let p = if !cap && matches!(fee, Some(Fee::Capacity(..))) { "C11" } else { "C09" };
		put(p, first("capacity", &want.cap.cap, &got.cap.cap));
		put("C09", first("staking account", &want.cap.ledger, &got.cap.ledger));
		put("C09", first("staking target", &want.cap.target, &got.cap.target));
		put("C10", first("unlocking", &want.cap.unlocks, &got.cap.unlocks));
		let e = |c: &CapD| (c.epoch, c.epoch_start, c.epoch_len);
		put("C10", (e(&want.cap) != e(&got.cap)).then(|| format!("the epoch is {:?} and should be {:?}", e(&got.cap), e(&want.cap))));
	}
	if want.hand != got.hand {
		put("C06", first("owner of handle", &want.hand.owner, &got.hand.owner));
		put("C06", first("handle of MSA", &want.hand.name, &got.hand.name));
		put("C07", first("suffix sequence", &want.hand.seq, &got.hand.seq));
	}
	if want.msg != got.msg {
		put("C14", (want.msg.index != got.msg.index).then(|| format!("the message index is {} and should be {}", got.msg.index, want.msg.index)));
		put("C14", first("message", &want.msg.map, &got.msg.map));
	}
	if want.sch != got.sch {
		put("C15", first("schema", &want.sch.info, &got.sch.info));
		put("C15", first("schema model", &want.sch.model, &got.sch.model));
		put("C15", first("schema name", &want.sch.names, &got.sch.names));
		let e = |c: &SchD| (c.max_id, c.max_bytes);
		put("C15", (e(&want.sch) != e(&got.sch)).then(|| format!("(last schema id, model limit) is {:?} and should be {:?}", e(&got.sch), e(&want.sch))));
	}
	if want.stor != got.stor {
		put("C12", first("items", &want.stor.items, &got.stor.items));
		put("C12", first("page", &want.stor.pages, &got.stor.pages));
		put("C12", first("unknown storage", &want.stor.other, &got.stor.other));
	}
	if want.tr != got.tr {
		put("C16", first("release schedules", &want.tr.map, &got.tr.map));
	}
	if want.ext != got.ext {
		let (w, g) = (&*want.ext, &*got.ext);
		let h = |m: &BTreeMap<u32, Vec<Option<Task>>>| -> BTreeMap<u32, Vec<String>> {
			m.iter().map(|(n, l)| (*n, l.iter().map(|t| t.as_ref().map(|t| format!("{} by {:?} {:?} {:?} {}", motion(&t.call), t.by, t.periodic, t.id.map(|i| hex(&i[..4])), t.prio)).unwrap_or_default()).collect())).collect()
		};
		put("C27", first("agenda of block", &h(&w.agenda), &h(&g.agenda)));
		put("C27", first("named task", &w.lookup, &g.lookup));
		put("C27", first("spending proposal", &w.spends, &g.spends));
		put("C27", first("referendum", &w.refs, &g.refs));
		put("C27", first("blacklisted proposal", &w.black, &g.black));
		put("C27", first("cancelled proposal", &w.cancelled, &g.cancelled));
		put("C27", first("requested preimage", &w.images, &g.images));
		let e = |e: &ExtD| (e.spend_count, e.approvals.clone(), e.props.clone(), e.prop_count, e.ref_count, e.next, (e.invulnerables.clone(), e.desired, e.bond));
		put("C27", (e(w) != e(g)).then(|| format!("(spending proposals, approvals, public proposals, their number, referenda, next external, collators) are {:?} and should be {:?}", e(g), e(w))));
		put("C19", first("multisig", &w.multi, &g.multi));
	}
	if want.prox != got.prox {
		put("C19", first("proxies", &want.prox.map, &got.prox.map));
	}
	if want.gov != got.gov {
		for (what, w, g) in [("council", &want.gov.body[0], &got.gov.body[0]), ("committee", &want.gov.body[1], &got.gov.body[1])] {
			let h = |m: &BTreeMap<[u8; 32], Vec<u8>>| m.iter().map(|(k, c)| (hex(&k[..4]), motion(c))).collect::<BTreeMap<_, _>>();
			let v = |m: &BTreeMap<[u8; 32], Votes>| m.iter().map(|(k, c)| (hex(&k[..4]), c.clone())).collect::<BTreeMap<_, _>>();
			put("C26", first(&format!("motion of the {}", what), &h(&w.calls), &h(&g.calls)));
			put("C26", first(&format!("votes of the {}", what), &v(&w.votes), &v(&g.votes)));
			let e = |b: &Body| (b.open.iter().map(|h| hex(&h[..4])).collect::<Vec<_>>(), b.count, b.members.clone(), b.prime.clone());
			put("C26", (e(w) != e(g)).then(|| format!("the {} is {:?} and should be {:?}", what, e(g), e(w))));
		}
	}
	if want.bal != got.bal {
		let side = |b: &BalD, pick: fn(&(u8, u8)) -> bool| -> BTreeMap<Acc, BTreeMap<(u8, u8), Bal>> {
			b.freezes.iter().map(|(a, f)| (a.clone(), f.iter().filter(|x| pick(x.0)).map(|x| (*x.0, *x.1)).collect::<BTreeMap<_, _>>())).filter(|x| !x.1.is_empty()).collect()
		};
		for (p, pick) in [("C09", (|r| *r == crate::model::capacity::FREEZE) as fn(&(u8, u8)) -> bool), ("C16", |r| *r != crate::model::capacity::FREEZE)] {
			put(p, first("frozen tokens", &side(&want.bal, pick), &side(&got.bal, pick)));
		}
		let none = AccInfo::default();
		let all: BTreeSet<&Acc> = want.bal.acc.keys().chain(got.bal.acc.keys()).collect();
		for a in all {
			let (w, g) = (want.bal.acc.get(a).unwrap_or(&none), got.bal.acc.get(a).unwrap_or(&none));
			if w.nonce != g.nonce {
				put("C18", Some(format!("the nonce of {} is {} and should be {}", name(a), g.nonce, w.nonce)));
			}
			if w.free != g.free && !m.loose_bal {
				let p = match fee {
					Some(Fee::Capacity(..)) => "C11",
					Some(Fee::Free) => "C04",
					Some(Fee::Range(..)) => "C17",
					_ => call.map(about).unwrap_or("C16"),
				};
				put(p, Some(format!("the balance of {} is {} and should be {}", name(a), g.free, w.free)));
			}
		}
	}
	if want.strange != got.strange {
		let f = |s: &View| s.strange.iter().map(|(k, v)| (hex(k), hex(v))).collect::<BTreeMap<_, _>>();
		put("C20", first("storage the current version does not know", &f(want), &f(got)));
	}
	o
}
fn motion(c: &[u8]) -> String {
	use simsdk::codec::Decode;
	match RuntimeCall::decode(&mut &c[..]) {
		Ok(x) => describe(&x),
		Err(_) => hex(c),
	}
}
pub fn hex(b: &[u8]) -> String {
	b.iter().take(60).map(|x| format!("{:02x}", x)).collect()
}
pub fn name(a: &Acc) -> String {
	match crate::users::index(a) {
		Some(i) => format!("user{}", i),
		None => format!("{:?}", a),
	}
}
pub fn describe(c: &RuntimeCall) -> String {
	cut(format!("{:?}", c))
}
/// Is the state consistent in itself? Checked on every block, independent of what led there.
pub fn invariants(v: &View, n: u32) -> Vec<(&'static str, String)> {
	let mut o = vec![];
	let mut bad = |p: &'static str, c: bool, t: String| {
		if !c {
			o.push((p, t))
		}
	};
	let mut count: BTreeMap<u64, u8> = BTreeMap::new();
	for (k, m) in &v.msa.keys {
		*count.entry(*m).or_default() += 1;
		bad("C01", *m > 0 && *m <= v.msa.max_id, format!("{} controls MSA {} that was never given out", name(k), m));
	}
	bad("C01", count == v.msa.count, "the key counts differ from the keys".to_string());
	for ((d, p), g) in &v.del.map {
		bad("C03", *d <= v.msa.max_id && v.del.prov.contains_key(p), format!("delegation of {} to {}, which is no provider", d, p));
		bad("C03", g.revoked_at <= n && g.perms.values().all(|r| *r <= n), format!("delegation of {} to {} revoked in the future", d, p));
		bad("C03", g.perms.keys().all(|s| *s <= v.sch.max_id), format!("delegation of {} to {} of an unknown schema", d, p));
	}
	for m in v.del.prov.keys() {
		bad("C03", v.msa.count.contains_key(m), format!("provider {} has no key", m));
	}
	// stake: target ledgers add up to what accounts and providers have
	let (mut by_acc, mut by_prov): (BTreeMap<&Acc, Bal>, BTreeMap<u64, (Bal, Bal)>) = Default::default();
	for ((a, p), t) in &v.cap.target {
		*by_acc.entry(a).or_default() += t.0;
		let e = by_prov.entry(*p).or_default();
		e.0 += t.0;
		e.1 += t.1;
	}
	for (a, l) in &v.cap.ledger {
		bad("C09", by_acc.get(a).copied().unwrap_or(0) == l.0, format!("{} staked {} in all but {:?} on targets", name(a), l.0, by_acc.get(a)));
	}
	for (a, t) in &by_acc {
		bad("C09", v.cap.ledger.contains_key(*a) || *t == 0, format!("{} has {} on targets and no stake", name(a), t));
	}
	for (p, c) in &v.cap.cap {
		let t = by_prov.get(p).copied().unwrap_or_default();
		bad("C09", t.0 == c.staked, format!("provider {}: {} staked in all but {} by accounts", p, c.staked, t.0));
		bad("C09", t.1 == c.issued, format!("provider {}: {} Capacity issued in all but {} to accounts", p, c.issued, t.1));
		bad("C09", c.remaining <= c.issued, format!("provider {} has {} Capacity of {}", p, c.remaining, c.issued));
	}
	for (a, f) in &v.bal.freezes {
		if let Some(x) = f.get(&crate::model::capacity::FREEZE) {
			let want = v.cap.ledger.get(a).map(|l| l.0).unwrap_or(0) + v.cap.unlocks.get(a).map(|u| u.iter().map(|c| c.0).sum()).unwrap_or(0);
			bad("C09", *x == want, format!("{}: {} tokens frozen for staking, {} staked or thawing", name(a), x, want));
			bad("C09", *x <= v.free(a), format!("{}: {} tokens frozen for staking of {}", name(a), x, v.free(a)));
		}
	}
	for (a, l) in &v.cap.ledger {
		let f = v.bal.freezes.get(a).and_then(|f| f.get(&crate::model::capacity::FREEZE)).copied().unwrap_or(0);
		bad("C09", f >= l.0, format!("{}: {} staked, {} frozen", name(a), l.0, f));
	}
	for (a, u) in &v.cap.unlocks {
		bad("C10", !u.is_empty() && u.len() <= crate::model::capacity::MAX_CHUNKS, format!("{} has {} unlocking chunks", name(a), u.len()));
	}
	for (a, s) in &v.tr.map {
		let f = v.bal.freezes.get(a).and_then(|f| f.get(&crate::model::release::FREEZE)).copied().unwrap_or(0);
		let most: Bal = s.iter().map(|s| s.total()).fold(0, |a, b| a.saturating_add(b));
		bad("C16", f <= most, format!("{}: {} tokens held back by schedules of {}", name(a), f, most));
	}
	// handles: one owner each, and the same from both sides
	let mut seen = BTreeSet::new();
	for (m, (d, _)) in &v.hand.name {
		match crate::model::handles::split(d) {
			None => bad("C06", false, format!("MSA {} has the handle {:?}", m, String::from_utf8_lossy(d))),
			Some((b, s)) => {
				let k = (crate::refhandle::canonical(&b).into_bytes(), s);
				bad("C06", v.hand.owner.get(&k) == Some(m), format!("the handle {:?} of MSA {} is registered to {:?}", String::from_utf8_lossy(d), m, v.hand.owner.get(&k)));
				bad("C08", seen.insert(k), format!("two MSAs have a handle like {:?}", String::from_utf8_lossy(d)));
				bad("C07", (10..=99).contains(&s) || (s > 100 && crate::world::EARLIER.contains(&(*m, s))), format!("suffix {} of {:?}", s, String::from_utf8_lossy(d)));
			},
		}
	}
	bad("C06", v.hand.owner.len() == v.hand.name.len(), format!("{} handles registered, {} shown", v.hand.owner.len(), v.hand.name.len()));
	let mut listed: BTreeMap<u16, usize> = BTreeMap::new();
	for s in v.sch.names.values().flat_map(|l| l.iter().copied().collect::<BTreeSet<_>>()) {
		*listed.entry(s).or_default() += 1;
	}
	for (s, i) in &v.sch.info {
		bad("C15", *s > 0 && *s <= v.sch.max_id && v.sch.model.contains_key(s), format!("schema {} without a model", s));
		let named = listed.get(s).copied().unwrap_or(0);
		bad("C15", named <= 1 && (named == 1) == i.has_name, format!("schema {}: has_name is {} and it is listed {} times", s, i.has_name, named));
	}
	bad("C15", v.sch.info.len() == v.sch.max_id as usize && v.sch.model.len() == v.sch.info.len(), "schema ids are not consecutive".into());
	for (k, p) in &v.stor.items {
		bad("C12", crate::model::storage::items(&p.1).is_some() && !p.1.is_empty(), format!("the item page {:?} cannot be read", k));
	}
	bad("C12", v.stor.other.is_empty(), "storage outside of any page".into());
	// messages of this block are numbered from 0 without gaps
	let idx: Vec<u16> = {
		let mut l: Vec<u16> = v.msg.map.range((n, 0, 0)..).map(|x| x.0 .2).collect();
		l.sort();
		l
	};
	bad("C14", idx.iter().enumerate().all(|(i, x)| i == *x as usize) && v.msg.index as usize == idx.len(), format!("message indexes {:?} with the next being {}", idx, v.msg.index));
	for b in &v.gov.body {
		let open: BTreeSet<[u8; 32]> = b.open.iter().copied().collect();
		bad("C26", open.len() == b.open.len() && open.iter().eq(b.calls.keys()) && open.iter().eq(b.votes.keys()), "open motions and their votes differ".into());
		for (h, c) in &b.calls {
			bad("C26", simsdk::hashing::blake2_256(c) == *h, format!("motion {} is not what was voted on", motion(c)));
		}
		for x in b.votes.values() {
			let all: BTreeSet<&Acc> = x.ayes.iter().chain(&x.nays).collect();
			bad("C26", all.len() == x.ayes.len() + x.nays.len() && all.iter().all(|a| b.members.contains(a)), format!("votes of others than members: {:?}", x));
		}
	}
	bad("C02", v.sig.ptr.as_ref().map(|p| p.3 as usize == v.sig.list.len() + 1).unwrap_or(v.sig.list.is_empty()), "the signature registry is not what it counts".into());
	o
}

pub struct Oracle<'a> {
	pub pre: &'a View,
	pub parent: &'a BlockRec,
	pub max_sigs: u32,
	pub genesis: Hash,
	pub hash_at: &'a dyn Fn(u32) -> Option<Hash>,
	pub hist: Arc<Hist>,
	pub cov: &'a mut Cov,
	pub out: Vec<Viol>,
	/// what the transaction being judged is about
	pub ctx: Vec<&'static str>,
}
impl<'a> Oracle<'a> {
	fn bad(&mut self, prop: &'static str, sig: &str, text: String) {
		self.out.push(Viol { prop, also: self.ctx.clone(), sig: sig.into(), text })
	}
	/// Checks the block; the view and the history after it.
	pub fn block(&mut self, b: &BlockRec) -> (View, Arc<Hist>) {
		let mut env = Env { n: b.number, relay: b.relay, max_sigs: self.max_sigs, xt: 0 };
		let mut real = self.pre.clone();
		let mut m = M::new(real.clone(), env);
		let tasks: Vec<RuntimeCall> = real
			.ext
			.agenda
			.get(&b.number)
			.map(|l| l.iter().flatten().filter_map(|t| simsdk::codec::Decode::decode(&mut &t.call[..]).ok()).collect())
			.unwrap_or_default();
		let due = !tasks.is_empty();
		m.begin_block();
		if m.v.msg.index != 0 {
			m.msg().index = 0;
		}
		real.apply(&b.init);
		if due {
			self.ctx = tasks.iter().flat_map(related).chain(["C27"]).collect();
			for k in &m.ran {
				self.cov.add(format!("ran {}", k), 1);
			}
			if let Some(w) = m.maybe {
				self.cov.add(format!("undecided: {}", w), 1);
			}
		}
		if m.maybe.is_none() && m.known.is_empty() {
			for (p, t) in compare(&m.v, &real, &m, None, None) {
				self.bad(p, "init", format!("block {}: at the start of the block {}", b.number, t));
			}
		}
		self.ctx.clear();
		let ch = Chain { genesis: self.genesis, hash_at: self.hash_at, state: &self.parent.state, pool: false };
		for i in 0..=b.xts.len() {
			for r in b.refused.iter().filter(|r| r.after == i) {
				self.refused(&real, env, r, &ch, b.number);
			}
			if let Some(x) = b.xts.get(i) {
				self.ctx = related(&x.tx.xt.function);
				env.xt = (b.inherents.len() + i) as u32;
				real = self.included(&real, env, x, &ch, b.number);
			}
			self.ctx.clear();
		}
		for (t, p) in &b.panics {
			self.ctx = related(&t.xt.function);
			let a = about(&t.xt.function);
			self.bad(a, "panic", format!("block {}: {} panics: {}", b.number, describe(&t.xt.function), p));
			self.bad("C21", "panic", format!("block {}: {} panics: {}", b.number, describe(&t.xt.function), p));
		}
		self.ctx.clear();
		if let Some(e) = b.sys_events.iter().find(|e| !due && crate::observe::stray(e)) {
			self.bad("C25", "stray", format!("block {}: {:?} outside of any transaction", b.number, e));
		}
		let mut after = real.clone();
		after.apply(&b.fin);
		let m = M::new(real.clone(), env);
		for (p, t) in compare(&real, &after, &m, None, None) {
			self.bad(p, "end", format!("block {}: at the end of the block {}", b.number, t));
		}
		for (p, t) in invariants(&after, b.number) {
			self.bad(p, "invariant", format!("after block {}: {}", b.number, t));
		}
		self.cov.add("blocks", 1);
		self.cov.states.insert(u64::from_be_bytes(root_hash(&b.state).0[..8].try_into().unwrap()));
		(after, self.hist.clone())
	}
	fn refused(&mut self, v: &View, env: Env, r: &Refused, ch: &Chain, n: u32) {
		self.ctx = related(&r.tx.xt.function);
		self.cov.add("transactions refused", 1);
		if r.left != 0 {
			self.bad("C21", "refused-trace", format!("block {}: the refused {} changed the state", n, describe(&r.tx.xt.function)));
		}
		if matches!(r.err, TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources)) {
			self.cov.add("refused: block full", 1);
			return
		}
		let m = M::new(v.clone(), env);
		match m.admit(&r.tx.xt, r.tx.len, ch) {
			Ok(t) => {
				let p = fee_prop(&t.fee);
				self.bad(p, "refused", format!("block {}: the acceptable {} is refused: {:?}", n, describe(&r.tx.xt.function), r.err));
			},
			Err(Stop::No(w)) => self.cov.shape(format!("{} not admitted: {}", crate::model::kind(&r.tx.xt.function), w.text)),
			Err(Stop::Maybe(w)) => self.cov.add(format!("undecided: {}", w), 1),
		}
	}
	fn included(&mut self, v: &View, env: Env, x: &XtRec, ch: &Chain, n: u32) -> View {
		let mut real = v.clone();
		real.apply(&x.touched);
		let call = &x.tx.xt.function;
		let what = || format!("block {}: {}", n, describe(call));
		let kind = crate::model::kind(call);
		self.cov.add("transactions included", 1);
		if Arc::make_mut(&mut self.hist).txs.insert(x.tx.id, signer(&x.tx)).is_some() {
			let free = validity::is_free(call);
			let sig = if free && v.bal.acc.get(&signer(&x.tx)).map(|a| a.providers + a.consumers + a.sufficients == 0).unwrap_or(true) { "free-replay" } else { "replay" };
			self.bad("C18", sig, format!("{} was included a second time", what()));
		}
		// an account that ceases to exist takes its nonce with it
		for a in v.bal.acc.keys().filter(|a| !real.bal.acc.contains_key(*a)) {
			Arc::make_mut(&mut self.hist).txs.retain(|_, s| s != a);
		}
		if let RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload }) = call {
			if x.res.is_ok() && unsigned(payload) {
				self.bad("C17", "passkey-unsigned", format!("{} was included and executed although the passkey it names signed nothing", what()));
			}
		}
		let (wrong, events) = crate::observe::observe(v, &real, x);
		self.cov.add("events read", events);
		for w in wrong {
			self.bad("C25", "events", format!("{}: {}", what(), w));
		}
		let mut m = M::new(v.clone(), env);
		let t = match m.admit(&x.tx.xt, x.tx.len, ch) {
			Ok(t) => t,
			Err(Stop::No(w)) => {
				self.bad(w.tag, "included", format!("{} was included although: {}", what(), w.text));
				return real
			},
			Err(Stop::Maybe(w)) => {
				self.cov.add(format!("undecided: {}", w), 1);
				return real
			},
		};
		// who paid
		let mut paid = None;
		for e in &x.events {
			if let RuntimeEvent::TransactionPayment(simsdk::pallets::transaction_payment::Event::TransactionFeePaid { who, actual_fee, .. }) = e {
				if who != &t.payer {
					self.bad(fee_prop(&t.fee), "payer", format!("{}: {} paid instead of {}", what(), name(who), name(&t.payer)));
				}
				paid = Some(*actual_fee);
			}
		}
		match (&t.fee, paid) {
			(Fee::Tokens(f), Some(p)) if p > *f => self.bad("C11", "overcharged", format!("{}: paid {} of at most {}", what(), p, f)),
			(Fee::Tokens(f), None) if *f > 0 => self.bad("C04", "uncharged", format!("{} paid nothing", what())),
			(Fee::Free | Fee::Capacity(..), Some(p)) if p > 0 => self.bad(fee_prop(&t.fee), "charged", format!("{} paid {} tokens", what(), p)),
			_ => (),
		}
		let want = m.include(&x.tx.xt, &t, paid);
		if let Fee::Range(lo, hi) = &t.fee {
			let (w, g) = (m.v.free(&t.payer), real.free(&t.payer));
			if w >= g && w - g <= hi - lo {
				m.bal().acc.entry(t.payer.clone()).or_default().free = g;
			}
		}
		let tag = |d: &'static str| -> &'static str {
			// a wrong write by a storage call is about the map, unless the reference names authority
			d
		};
		match (&want, &x.res) {
			(Err(Stop::Maybe(w)), _) => {
				self.cov.add(format!("undecided: {}", w), 1);
				return real
			},
			(Ok(()), Err(_)) if m.maybe.is_some() || !m.known.is_empty() => (),
			(Ok(()), Err(e)) => {
				self.bad(about(call), "failed", format!("{} failed with {:?}", what(), e));
				return real
			},
			(Err(Stop::No(w)), Ok(())) => {
				self.bad(tag(w.tag), "succeeded", format!("{} succeeded although: {}", what(), w.text));
				return real
			},
			(Ok(()), Ok(())) => {
				self.cov.shape(format!("{} ok", kind));
			},
			(Err(Stop::No(w)), Err(_)) => self.cov.shape(format!("{} fails: {}", kind, w.text)),
		}
		if m.maybe.is_some() {
			return real
		}
		let d = compare(&m.v, &real, &m, Some(&t.fee), Some(call));
		if !m.known.is_empty() {
			// with a listed defect repaired, or dormant in part of a batch, the rest cannot be foretold
			if d.is_empty() && x.res.is_ok() {
				for (p, sig) in &m.known {
					self.bad(p, sig, format!("{} succeeded", what()));
				}
			}
			return real
		}
		let failed = x.res.is_err();
		let told: Vec<(Acc, u16)> = x
			.events
			.iter()
			.filter_map(|e| match e {
				RuntimeEvent::Schemas(pallet_schemas::Event::SchemaCreated { key, schema_id }) => Some((key.clone(), *schema_id)),
				_ => None,
			})
			.collect();
		if told != m.creators {
			let s = |l: &[(Acc, u16)]| l.iter().map(|x| format!("{} for {}", x.1, name(&x.0))).collect::<Vec<_>>();
			self.bad("C26", "creator", format!("{}: created schemas {:?} and should have created {:?}", what(), s(&told), s(&m.creators)));
		}
		for (p, txt) in d {
			if failed {
				self.bad("C21", "failed-trace", format!("{} failed but {}", what(), txt));
			}
			self.bad(p, "state", format!("after {}: {}", what(), txt));
		}
		for k in &m.ran {
			self.cov.add(format!("ran {}", k), 1);
		}
		let h = Arc::make_mut(&mut self.hist);
		let mut out = vec![];
		for s in &m.used {
			if !h.sigs.insert(simsdk::hashing::blake2_256(s)) {
				out.push(("C02", "reuse", format!("{} used a signature a second time", what())));
			}
		}
		for s in &m.suffixed {
			if !h.suffixes.insert(s.clone()) {
				out.push(("C07", "reuse", format!("{} got suffix {} of {:?} again", what(), s.1, String::from_utf8_lossy(&s.0))));
			}
		}
		for (p, s, t) in out {
			self.bad(p, s, t);
		}
		real
	}
	/// What the pool of a node is told about a transaction.
	pub fn pooled(&mut self, at: &BlockRec, t: &Tx, got: &simsdk::sp_runtime::transaction_validity::TransactionValidity) {
		let env = Env { n: at.number + 1, relay: at.relay, max_sigs: self.max_sigs, xt: 0 };
		let ch = Chain { genesis: self.genesis, hash_at: self.hash_at, state: &at.state, pool: true };
		self.ctx = related(&t.xt.function);
		let m = M::new(self.pre.clone(), env);
		let what = format!("pool at block {}: {}", at.number, describe(&t.xt.function));
		self.cov.add("pool validations", 1);
		match (m.admit(&t.xt, t.len, &ch), got) {
			(Ok(k), Ok(v)) => {
				use simsdk::codec::Encode;
				let cur = self.pre.nonce(&k.payer);
				let tag = |n: u32| (&k.payer, n).encode();
				let mut req = vec![];
				if k.nonce > cur {
					req.push(tag(k.nonce - 1));
				}
				if !v.provides.contains(&tag(k.nonce)) || v.requires != req {
					let p = if t.xt.signature.is_none() { "C17" } else { "C18" };
					self.bad(p, "pool-order", format!("{}: wrong place in the pool (nonce {} with {} on chain)", what, k.nonce, cur));
				}
				if let (Fee::Capacity(..), Some((_, _, ex))) = (&k.fee, &t.xt.signature) {
					use pallet_frequency_tx_payment::ChargeFrqTransactionPayment as Charge;
					use simsdk::frame_support::dispatch::GetDispatchInfo;
					use simsdk::sp_runtime::traits::SignedExtension;
					let (info, tip) = (t.xt.function.get_dispatch_info(), crate::model::validity::extra(ex).2);
					let priority = |tip| simsdk::storage::query(&at.state, || Charge::<frequency_runtime::Runtime>::from(tip).validate(&signer(t), &t.xt.function, &info, t.len).map(|v| v.priority));
					if tip > 0 && priority(tip) != priority(0) {
						self.bad("C11", "pool-priority", format!("{}: a tip of {} that is not paid changes the priority", what, tip));
					}
				}
			},
			(Ok(k), Err(TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources))) => drop(k),
			(Ok(k), Err(e)) => self.bad(fee_prop(&k.fee), "pool-refused", format!("{} is refused: {:?}", what, e)),
			(Err(Stop::No(w)), Ok(_)) => self.bad(w.tag, "pool-accepted", format!("{} is accepted although: {}", what, w.text)),
			_ => (),
		}
	}
}
pub fn signer(t: &Tx) -> Acc {
	match &t.xt.signature {
		Some((simsdk::sp_runtime::MultiAddress::Id(a), _, _)) => a.clone(),
		_ => Acc::from([0u8; 32]),
	}
}
fn fee_prop(f: &Fee) -> &'static str {
	match f {
		Fee::Free => "C04",
		Fee::Capacity(..) => "C11",
		Fee::Range(..) => "C17",
		Fee::Tokens(_) => "C18",
	}
}
