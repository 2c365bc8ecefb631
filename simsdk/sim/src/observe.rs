//! An observer who knows the state before a transaction and reads only the events of it.
use crate::chain::{Acc, XtRec};
use crate::model::storage::page_hash;
use crate::view::*;
use frequency_runtime::{Runtime, RuntimeCall, RuntimeEvent as E};
use pallet_capacity::Event as C;
use pallet_handles::Event as H;
use pallet_messages::Event as G;
use pallet_msa::Event as M;
use pallet_passkey::Event as K;
use pallet_schemas::Event as S;
use pallet_stateful_storage::Event as P;
use pallet_time_release::Event as T;
use std::collections::{BTreeMap, BTreeSet};

/// What the observer takes the state to be; what it cannot know for sure is only marked as touched.
struct Obs {
	keys: BTreeMap<Acc, u64>,
	max_msa: u64,
	prov: BTreeSet<u64>,
	live: BTreeSet<(u64, u64)>,
	named: BTreeSet<(u64, u64)>,
	handles: BTreeMap<u64, Vec<u8>>,
	max_schema: u16,
	names: BTreeMap<Vec<u8>, Vec<u16>>,
	max_bytes: u32,
	items: BTreeMap<(u64, u16), u32>,
	pages: BTreeMap<(u64, u16, u16), u32>,
	written: BTreeSet<(u64, u16, Option<u16>)>,
	stake: BTreeMap<(Acc, u64), (Bal, Bal)>,
	issued: BTreeMap<u64, Bal>,
	left: BTreeMap<u64, Bal>,
	vague: BTreeSet<u64>,
	thawing: BTreeMap<Acc, Bal>,
	epoch_len: Option<u32>,
	released: BTreeSet<Acc>,
	added: Vec<(Acc, Sched)>,
	first_message: u32,
	passkeys: Vec<Acc>,
	retired: BTreeSet<u64>,
	frozen: BTreeMap<Acc, Bal>,
	regranted: BTreeSet<Acc>,
}
fn named(ns: &(Vec<u8>, Vec<u8>)) -> Vec<u8> {
	[&ns.0[..], &ns.1[..]].join(&b'.')
}
fn live(v: &View) -> BTreeSet<(u64, u64)> {
	v.del.map.iter().filter(|d| d.1.revoked_at == 0).map(|d| *d.0).collect()
}
fn thawing(v: &View) -> BTreeMap<Acc, Bal> {
	v.cap.unlocks.iter().map(|(a, c)| (a.clone(), c.iter().map(|x| x.0).sum())).filter(|x: &(Acc, Bal)| x.1 > 0).collect()
}
fn hashes<K: Ord + Copy>(m: &BTreeMap<K, (u16, Vec<u8>)>) -> BTreeMap<K, u32> {
	m.iter().map(|(k, p)| (*k, page_hash(Some(p)))).filter(|x| x.1 != 0).collect()
}
/// what release schedules hold back
fn frozen(v: &View) -> BTreeMap<Acc, Bal> {
	v.bal.freezes.iter().filter_map(|(a, f)| f.iter().find(|x| x.0 .0 == 40).map(|x| (a.clone(), *x.1))).filter(|x| x.1 > 0).collect()
}
fn left(v: &View) -> BTreeMap<u64, Bal> {
	v.cap.cap.iter().map(|(k, d)| (*k, if d.last_epoch < v.cap.epoch { d.issued } else { d.remaining })).collect()
}
impl Obs {
	fn new(v: &View) -> Obs {
		Obs {
			keys: v.msa.keys.clone(),
			max_msa: v.msa.max_id,
			prov: v.del.prov.keys().copied().collect(),
			live: live(v),
			named: Default::default(),
			handles: v.hand.name.iter().map(|(m, h)| (*m, h.0.clone())).collect(),
			max_schema: v.sch.max_id,
			names: v.sch.names.iter().map(|(n, i)| (named(n), i.clone())).collect(),
			max_bytes: v.sch.max_bytes,
			items: hashes(&v.stor.items),
			pages: hashes(&v.stor.pages),
			written: Default::default(),
			stake: v.cap.target.clone(),
			issued: v.cap.cap.iter().map(|(k, d)| (*k, d.issued)).collect(),
			left: left(v),
			vague: Default::default(),
			thawing: thawing(v),
			epoch_len: v.cap.epoch_len,
			released: Default::default(),
			added: vec![],
			first_message: 0,
			passkeys: vec![],
			retired: Default::default(),
			frozen: frozen(v),
			regranted: Default::default(),
		}
	}
	/// Takes an event in; what is wrong with it.
	fn see(&mut self, e: &E) -> Result<bool, String> {
		let need = |b: bool, t: &str| if b { Ok(()) } else { Err(t.to_string()) };
		match e {
			E::Msa(M::MsaCreated { msa_id, key }) => {
				need(*msa_id == self.max_msa + 1, "the MSA created is not the next one")?;
				self.max_msa += 1;
				need(self.keys.insert(key.clone(), *msa_id).is_none(), "the key was already announced")?;
			},
			E::Msa(M::PublicKeyAdded { msa_id, key }) => {
				need(self.keys.values().any(|m| m == msa_id), "no such MSA")?;
				need(self.keys.insert(key.clone(), *msa_id).is_none(), "the key was already announced")?;
			},
			E::Msa(M::PublicKeyDeleted { key }) => need(self.keys.remove(key).is_some(), "no such key")?,
			E::Msa(M::MsaRetired { msa_id }) => {
				need(*msa_id <= self.max_msa && !self.keys.values().any(|m| m == msa_id), "the MSA still has keys")?;
				need(self.retired.insert(*msa_id), "it was retired already")?;
			},
			E::Msa(M::ProviderCreated { provider_id }) => need(self.prov.insert(provider_id.0), "it was a provider already")?,
			E::Msa(M::DelegationGranted { provider_id, delegator_id }) => {
				self.live.insert((delegator_id.0, provider_id.0));
				self.named.insert((delegator_id.0, provider_id.0));
			},
			E::Msa(M::DelegationRevoked { provider_id, delegator_id }) => {
				need(self.live.remove(&(delegator_id.0, provider_id.0)), "no such live delegation")?;
				self.named.insert((delegator_id.0, provider_id.0));
			},
			E::Msa(M::DelegationUpdated { provider_id, delegator_id }) => {
				self.named.insert((delegator_id.0, provider_id.0));
			},
			E::Handles(H::HandleClaimed { msa_id, handle }) => need(self.handles.insert(*msa_id, handle.clone()).is_none(), "the MSA has a handle")?,
			E::Handles(H::HandleRetired { msa_id, handle }) => need(self.handles.remove(msa_id).as_ref() == Some(handle), "not the handle of that MSA")?,
			E::Schemas(S::SchemaCreated { schema_id, .. }) => {
				need(*schema_id == self.max_schema + 1, "the schema created is not the next one")?;
				self.max_schema += 1;
			},
			E::Schemas(S::SchemaNameCreated { schema_id, name }) => {
				need(*schema_id <= self.max_schema, "no such schema")?;
				self.names.entry(name.clone()).or_default().push(*schema_id);
			},
			E::Schemas(S::SchemaMaxSizeChanged { max_size }) => self.max_bytes = *max_size,
			E::StatefulStorage(P::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash }) => {
				let k = (*msa_id, *schema_id);
				need(self.items.get(&k).copied().unwrap_or(0) == *prev_content_hash, "not the hash the page had")?;
				self.items.insert(k, *curr_content_hash);
				self.written.insert((k.0, k.1, None));
			},
			E::StatefulStorage(P::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash }) => {
				let k = (*msa_id, *schema_id);
				need(self.items.remove(&k).unwrap_or(0) == *prev_content_hash, "not the hash the page had")?;
				self.written.insert((k.0, k.1, None));
			},
			E::StatefulStorage(P::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash }) => {
				let k = (*msa_id, *schema_id, *page_id);
				need(self.pages.get(&k).copied().unwrap_or(0) == *prev_content_hash, "not the hash the page had")?;
				self.pages.remove(&k);
				if *curr_content_hash != 0 {
					self.pages.insert(k, *curr_content_hash);
				}
				self.written.insert((k.0, k.1, Some(k.2)));
			},
			E::StatefulStorage(P::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash }) => {
				let k = (*msa_id, *schema_id, *page_id);
				need(self.pages.remove(&k).unwrap_or(0) == *prev_content_hash, "not the hash the page had")?;
				self.written.insert((k.0, k.1, Some(k.2)));
			},
			E::Capacity(C::Staked { account, target, amount, capacity }) => {
				let t = self.stake.entry((account.clone(), *target)).or_default();
				*t = (t.0.saturating_add(*amount), t.1.saturating_add(*capacity));
				let i = self.issued.entry(*target).or_default();
				*i = i.saturating_add(*capacity);
				// whether a due replenishment comes with it cannot be seen
				self.vague.insert(*target);
			},
			E::Capacity(C::UnStaked { account, target, amount, capacity }) => {
				let k = (account.clone(), *target);
				let t = self.stake.get_mut(&k).ok_or("nothing is staked there")?;
				need(t.0 >= *amount && t.1 >= *capacity, "more than is staked")?;
				*t = (t.0 - amount, t.1 - capacity);
				if t.0 == 0 {
					self.stake.remove(&k);
				}
				*self.thawing.entry(account.clone()).or_default() += amount;
				let i = self.issued.entry(*target).or_default();
				*i = i.saturating_sub(*capacity);
				self.vague.insert(*target);
			},
			E::Capacity(C::StakeWithdrawn { account, amount }) => {
				let t = self.thawing.get_mut(account).ok_or("nothing is thawing")?;
				*t = t.checked_sub(*amount).ok_or("more than is thawing")?;
				if *t == 0 {
					self.thawing.remove(account);
				}
			},
			E::Capacity(C::CapacityWithdrawn { msa_id, amount }) => {
				if !self.vague.contains(msa_id) {
					let l = self.left.get_mut(msa_id).ok_or("no Capacity there")?;
					*l = l.checked_sub(*amount).ok_or("more than is left")?;
				}
			},
			E::Capacity(C::EpochLengthUpdated { blocks }) => self.epoch_len = Some(*blocks),
			E::TimeRelease(T::ReleaseScheduleAdded { to, release_schedule: s, .. }) => {
				self.released.insert(to.clone());
				// what was due is let go along with it
				self.regranted.insert(to.clone());
				self.added.push((to.clone(), Sched { start: s.start, period: s.period, count: s.period_count, per: s.per_period }));
			},
			E::TimeRelease(T::Claimed { who, amount }) => {
				self.released.insert(who.clone());
				self.added.retain(|a| &a.0 != who);
				if !self.regranted.contains(who) && *amount > 0 {
					let f = self.frozen.get_mut(who).ok_or("nothing is held back")?;
					*f = f.checked_sub(*amount).ok_or("more than is held back")?;
					if *f == 0 {
						self.frozen.remove(who);
					}
				}
			},
			E::TimeRelease(T::ReleaseSchedulesUpdated { who }) => {
				self.released.insert(who.clone());
				self.regranted.insert(who.clone());
				self.added.retain(|a| &a.0 != who);
			},
			E::Messages(G::MessagesInBlock) => self.first_message += 1,
			E::Passkey(K::TransactionExecutionSuccess { account_id }) => self.passkeys.push(account_id.clone()),
			_ => return Ok(false),
		}
		Ok(true)
	}
}
fn same<K: Ord + std::fmt::Debug, T: PartialEq + std::fmt::Debug>(what: &str, told: &BTreeMap<K, T>, is: &BTreeMap<K, T>) -> Option<String> {
	let k = told.keys().chain(is.keys()).find(|k| told.get(k) != is.get(k))?;
	let t = format!("{} {:?}: told {:?}, is {:?}", what, k, told.get(k), is.get(k));
	Some(t)
}
fn set<K: Ord + Clone>(s: &BTreeSet<K>) -> BTreeMap<K, ()> {
	s.iter().map(|k| (k.clone(), ())).collect()
}
/// keys whose value changed
fn changed<K: Ord + Clone, T: PartialEq>(a: &BTreeMap<K, T>, b: &BTreeMap<K, T>) -> BTreeSet<K> {
	a.keys().chain(b.keys()).filter(|k| a.get(k) != b.get(k)).cloned().collect()
}
/// What an observer of the events of a transaction gets wrong, and how many events it took in.
pub fn observe(pre: &View, post: &View, x: &XtRec) -> (Vec<String>, u64) {
	let mut o = Obs::new(pre);
	let mut out = vec![];
	let mut n = 0;
	for e in &x.events {
		match o.see(e) {
			Ok(known) => n += known as u64,
			Err(t) => out.push(format!("event {:?}: {}", e, t)),
		}
	}
	if !out.is_empty() {
		return (out, n)
	}
	let mut say = |t: Option<String>| out.extend(t);
	say(same("MSA of key", &o.keys, &post.msa.keys));
	say((o.max_msa != post.msa.max_id).then(|| format!("MSAs: told {}, are {}", o.max_msa, post.msa.max_id)));
	say(same("provider", &set(&o.prov), &post.del.prov.keys().map(|k| (*k, ())).collect()));
	say(same("live delegation", &set(&o.live), &set(&live(post))));
	let had: BTreeSet<u64> = pre.msa.keys.values().copied().chain(pre.msa.max_id + 1..=post.msa.max_id).collect();
	let gone: BTreeSet<u64> = had.into_iter().filter(|m| !post.msa.keys.values().any(|x| x == m)).collect();
	say(same("retired MSA", &set(&o.retired), &set(&gone)));
	let d = changed(&pre.del.map, &post.del.map);
	say(d.difference(&o.named).next().map(|k| format!("delegation {:?} changed untold", k)));
	say(o.named.iter().find(|k| !post.del.map.contains_key(k)).map(|k| format!("told of a delegation {:?} that is not", k)));
	say(same("handle of", &o.handles, &post.hand.name.iter().map(|(m, h)| (*m, h.0.clone())).collect()));
	say((o.max_schema != post.sch.max_id).then(|| format!("schemas: told {}, are {}", o.max_schema, post.sch.max_id)));
	say(same("schemas of name", &o.names, &post.sch.names.iter().map(|(n, i)| (named(n), i.clone())).collect()));
	say((o.max_bytes != post.sch.max_bytes).then(|| format!("schema size: told {}, is {}", o.max_bytes, post.sch.max_bytes)));
	say(same("hash of items", &o.items, &hashes(&post.stor.items)));
	say(same("hash of page", &o.pages, &hashes(&post.stor.pages)));
	let w: BTreeSet<_> = changed(&pre.stor.items, &post.stor.items).into_iter().map(|k| (k.0, k.1, None)).chain(changed(&pre.stor.pages, &post.stor.pages).into_iter().map(|k| (k.0, k.1, Some(k.2)))).collect();
	say(w.difference(&o.written).next().map(|k| format!("page {:?} changed untold", k)));
	say(same("stake", &o.stake, &post.cap.target));
	say(same("thawing", &o.thawing, &thawing(post)));
	for (t, i) in &post.cap.cap {
		let told = o.issued.get(t).copied().unwrap_or(0);
		say((told != i.issued).then(|| format!("Capacity issued to {}: told {}, is {}", t, told, i.issued)));
	}
	let l = left(post);
	for (t, i) in l.iter().filter(|x| !o.vague.contains(x.0)) {
		say((o.left.get(t) != Some(i)).then(|| format!("Capacity left to {}: told {:?}, is {}", t, o.left.get(t), i)));
	}
	say((o.epoch_len != post.cap.epoch_len).then(|| format!("epoch length: told {:?}, is {:?}", o.epoch_len, post.cap.epoch_len)));
	say(changed(&pre.tr.map, &post.tr.map).difference(&o.released).next().map(|k| format!("release schedules of {:?} changed untold", k)));
	let is = frozen(post);
	for a in changed(&o.frozen, &is).difference(&o.regranted) {
		say(Some(format!("held back of {:?}: told {:?}, is {:?}", a, o.frozen.get(a), is.get(a))));
	}
	// a later one clears away what is due of the earlier ones
	for (a, s) in o.added.iter().map(|x| (x.0.clone(), x.1.clone())).collect::<BTreeMap<_, _>>() {
		let is = post.tr.map.get(&a).map(|l| l.contains(&s)).unwrap_or(false);
		say((!is).then(|| format!("release schedule {:?} of {:?} was told of but is not", s, a)));
	}
	// a batch may be cut back between a message and the next
	let first = (pre.msg.index == 0 && post.msg.index > 0) as u32;
	say((o.first_message != first).then(|| format!("first message of the block told {} times, is {}", o.first_message, first)));
	// what is told is told of a call that was carried out
	let p: Vec<Acc> = match (&x.tx.xt.function, &x.res) {
		(RuntimeCall::Passkey(pallet_passkey::Call::<Runtime>::proxy { payload }), Ok(())) => vec![payload.passkey_call.account_id.clone()],
		_ => vec![],
	};
	say((o.passkeys != p).then(|| format!("passkey calls told {:?}, are {:?}", o.passkeys, p)));
	(out, n)
}
/// Events of the repository's pallets, which only transactions cause.
pub fn stray(e: &E) -> bool {
	matches!(
		e,
		E::Msa(_) | E::Handles(_) | E::Schemas(_) | E::StatefulStorage(_) | E::Capacity(_) | E::TimeRelease(_) | E::Messages(_) | E::Passkey(_)
	)
}
