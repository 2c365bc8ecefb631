//! Runtime upgrades: states that histories reached are laid out the way older versions did, then upgraded.
//!
//! The old layout is written from its description, not with the repository's code. An upgrade has to bring back the
//! state it was made from; one that is cut short leaves nothing behind; a second one changes nothing.
use crate::chain::*;
use crate::model::{capacity, release};
use crate::rng::Rng;
use crate::view::{AccInfo, Bal, SchemaI, View};
use crate::world::World;
use frequency_runtime::{Balances, Runtime, RuntimeFreezeReason};
use simsdk::codec::{Decode, Encode};
use simsdk::frame_support::traits::{fungible::MutateFreeze, LockableCurrency, OnRuntimeUpgrade, WithdrawReasons};
use simsdk::hashing::{blake2_128, twox_64};
use simsdk::storage::{self, Bytes, Ext, State};
use std::collections::BTreeMap;
use std::sync::Arc;

const MAINNET: [u8; 32] = [
	0x4a, 0x58, 0x7b, 0xf1, 0x7a, 0x40, 0x4e, 0x35, 0x72, 0x74, 0x7a, 0xdd, 0x7a, 0xab, 0x7b, 0xbe, 0x56, 0xe8, 0x05, 0xa5, 0x47, 0x9c, 0x6c, 0x43, 0x6f, 0x07, 0xf3, 0x6f, 0xcc, 0x8d, 0x3a, 0xe1,
];
const NAMES: [(u16, &str); 6] =
	[(5, "update"), (6, "profile"), (7, "public-key-key-agreement"), (8, "public-follows"), (9, "private-follows"), (10, "private-connections")];
/// Those with a migration, and the version it leads to. (The one of capacity, v3, is a file that no module includes.)
const PALLETS: [(&str, u16); N] = [("Messages", 2), ("TimeRelease", 2), ("Schemas", 4)];
const N: usize = 3;
const MESSAGES: usize = 0;
const RELEASE: usize = 1;
const SCHEMAS: usize = 2;

const VESTING: RuntimeFreezeReason = RuntimeFreezeReason::TimeRelease(pallet_time_release::FreezeReason::TimeReleaseVesting);

fn twox(k: impl Encode) -> Vec<u8> {
	let e = k.encode();
	[&twox_64(&e)[..], &e].concat()
}
fn blake(k: impl Encode) -> Vec<u8> {
	let e = k.encode();
	[&blake2_128(&e)[..], &e].concat()
}
fn at(pallet: &str, item: &str, keys: &[Vec<u8>]) -> Vec<u8> {
	let mut k = prefix(pallet, item);
	keys.iter().for_each(|x| k.extend_from_slice(x));
	k
}
fn set_version(p: usize, v: u16) {
	storage::set(&prefix(PALLETS[p].0, ":__STORAGE_VERSION__:"), &v.encode());
}
/// Changes a state by hand, as a root operation would.
fn edit(s: &Arc<State>, f: impl FnOnce()) -> Arc<State> {
	let (_, ext) = storage::run(Ext::new(s.clone()), f);
	let (ch, _) = ext.finish();
	let mut o = (**s).clone();
	o.apply(&ch);
	Arc::new(o)
}
fn migrate(which: usize) {
	use pallet_messages::migration::v2::MigrateToV2;
	use pallet_schemas::migration::v4::MigrateToV4;
	use pallet_time_release::migration::v2::MigrationToV2;
	match which {
		MESSAGES => MigrateToV2::<Runtime>::on_runtime_upgrade(),
		RELEASE => MigrationToV2::<Runtime, Balances>::on_runtime_upgrade(),
		_ => MigrateToV4::<Runtime>::on_runtime_upgrade(),
	};
}
fn put_message(n: u32, schema: u16, index: u16, payload: &[u8], provider: u64, msa: Option<u64>) {
	storage::set(&at("Messages", "MessagesV2", &[twox(n), twox(schema), twox(index)]), &(payload, provider, msa).encode());
}
/// The messages as lists of a block and schema, each with its index.
fn old_messages(v: &View) {
	let mut lists: BTreeMap<(u32, u16), Vec<(Vec<u8>, u64, Option<u64>, u16)>> = BTreeMap::new();
	for ((n, s, i), m) in &v.msg.map {
		lists.entry((*n, *s)).or_default().push((m.payload.clone(), m.provider, m.msa, *i));
		storage::clear(&at("Messages", "MessagesV2", &[twox(*n), twox(*s), twox(*i)]));
	}
	for ((n, s), l) in lists {
		storage::set(&at("Messages", "Messages", &[twox(n), twox(s)]), &l.encode());
	}
}
/// What is to be released was locked, not frozen.
fn old_locks(v: &View) {
	for (a, f) in &v.bal.freezes {
		if let Some(amount) = f.get(&release::FREEZE) {
			let _ = <Balances as MutateFreeze<Acc>>::thaw(&VESTING, a);
			<Balances as LockableCurrency<Acc>>::set_lock(*b"timeRels", a, *amount, WithdrawReasons::all());
		}
	}
}
fn set_info(id: u16, i: &SchemaI) {
	storage::set(&at("Schemas", "SchemaInfos", &[twox(id)]), &i.encode());
}
fn name_key(space: &[u8], name: &[u8]) -> Vec<u8> {
	at("Schemas", "SchemaNameToIds", &[blake(space), blake(name)])
}
/// The known schemas have no name yet, or a wrong one.
fn old_schemas(v: &View, r: &mut Rng) {
	for ((a, b), ids) in &v.sch.names {
		let left: Vec<u16> = ids.iter().filter(|i| !(5..=10).contains(*i)).copied().collect();
		match left.is_empty() {
			true => storage::clear(&name_key(a, b)),
			false => storage::set(&name_key(a, b), &left.encode()),
		}
	}
	for (id, name) in NAMES {
		if let Some(i) = v.sch.info.get(&id) {
			set_info(id, &SchemaI { has_name: false, ..i.clone() });
			if r.pct(15) {
				storage::set(&name_key(b"dsnp", name.as_bytes()), &vec![id - 1].encode());
			}
		}
	}
}
/// On the main network the known schemas have their names afterwards.
fn new_schemas(v: &View) {
	for (id, name) in NAMES {
		if let Some(i) = v.sch.info.get(&id) {
			set_info(id, &SchemaI { has_name: true, ..i.clone() });
			storage::set(&name_key(b"dsnp", name.as_bytes()), &vec![id].encode());
		}
	}
}
/// Every entry, those aside that say how the block went; the order of freezes means nothing, frozen amounts follow from them.
fn plain(s: &State) -> BTreeMap<Bytes, Vec<u8>> {
	let skip: Vec<Vec<u8>> = [("System", "Events"), ("System", "EventCount"), ("System", "EventTopics"), ("System", "BlockWeight"), ("TransactionPayment", "NextFeeMultiplier"), ("Balances", "Freezes")]
		.iter()
		.map(|x| [&[storage::TOP][..], &prefix(x.0, x.1)].concat())
		.collect();
	let acc = [&[storage::TOP][..], &prefix("System", "Account")].concat();
	s.map
		.iter()
		.filter(|x| !skip.iter().any(|p| x.0.starts_with(p)))
		.map(|(k, v)| match AccInfo::decode(&mut &v[..]) {
			Ok(a) if k.starts_with(&acc) => (k.clone(), AccInfo { frozen: 0, ..a }.encode()),
			_ => (k.clone(), v.to_vec()),
		})
		.collect()
}
fn locks(s: &State) -> BTreeMap<Acc, Vec<([u8; 8], Bal)>> {
	entries(s, &prefix("Balances", "Locks"))
		.into_iter()
		.map(|(k, v)| (decode(&k[16..]), decode::<Vec<([u8; 8], Bal, u8)>>(v).into_iter().map(|x| (x.0, x.1)).collect()))
		.collect()
}
fn part(k: &[u8]) -> &'static str {
	for (p, n) in [("Messages", "messages"), ("Capacity", "capacity"), ("TimeRelease", "release"), ("Schemas", "schemas"), ("Balances", "balances"), ("System", "system")] {
		if k.len() > 17 && k[1..17] == prefix(p, "")[..16] {
			return n
		}
	}
	"others"
}
/// The first difference between what is and what should be: where, and what.
fn differ(got: &State, want: &State) -> Option<(&'static str, String)> {
	let (a, b) = (plain(got), plain(want));
	let show = |x: Option<&Vec<u8>>| x.map(|x| format!("{:?}", simsdk::sp_core::Bytes(x.clone()))).unwrap_or("nothing".into());
	for k in a.keys().chain(b.keys()) {
		if a.get(k) != b.get(k) {
			let t = format!("the entry {:?} is {} instead of {}", simsdk::sp_core::Bytes(k.to_vec()), show(a.get(k)), show(b.get(k)));
			return Some((part(k), t.chars().take(600).collect()))
		}
	}
	let (v, w) = (View::of(got), View::of(want));
	for a in v.bal.freezes.keys().chain(w.bal.freezes.keys()) {
		let (x, y) = (v.bal.freezes.get(a), w.bal.freezes.get(a));
		if x != y {
			let k = [capacity::FREEZE, release::FREEZE].into_iter().find(|k| x.and_then(|f| f.get(k)) != y.and_then(|f| f.get(k)));
			return Some((if k == Some(release::FREEZE) { "release freeze" } else { "capacity freeze" }, format!("{:?} has the freezes {:?} instead of {:?}", a, x, y)))
		}
	}
	let l = locks(got);
	for (a, i) in &v.bal.acc {
		let m = v.bal.freezes.get(a).into_iter().flat_map(|f| f.values()).chain(l.get(a).into_iter().flatten().map(|x| &x.1)).max().copied().unwrap_or(0);
		if i.frozen != m {
			return Some(("balances", format!("{:?} has {} frozen instead of {}", a, i.frozen, m)))
		}
	}
	None
}

pub fn op(w: &mut World, n: usize, seed: u64) {
	let mut r = Rng::new(seed);
	if !w.nodes[n].up {
		return
	}
	let head = w.nodes[n].head;
	let state = w.nodes[n].known[&head].clone();
	let block = w.blocks[&head].clone();
	w.note(|| format!("node {} goes through an upgrade at block {}", n, block.number));
	w.cov.add("upgrade: states", 1);
	let mainnet = r.pct(60);
	let olds: Vec<bool> = (0..N).map(|_| r.pct(75)).collect();
	let extra = if r.pct(30) { r.range(1, 180) } else { 0 };
	let foreign = r.below(3);
	// the state as it should be afterwards, the known schemas aside
	let mut q = r.clone();
	let new = edit(&state, || {
		(0..N).for_each(|p| set_version(p, PALLETS[p].1));
		if mainnet {
			storage::set(&at("System", "BlockHash", &[twox(0u32)]), &MAINNET);
		}
		let (b, s) = (q.below(1 + block.number as u64) as u32, q.below(9) as u16);
		for i in 0..extra {
			let size = if q.pct(3) { 3000 } else { q.idx(80) };
			put_message(b, s, 20_000 + i as u16 * q.range(1, 3) as u16, &q.bytes(size), q.below(9), if q.pct(50) { Some(q.next()) } else { None });
		}
		for _ in 0..foreign {
			let a = crate::users::acc(q.idx(5));
			<Balances as LockableCurrency<Acc>>::set_lock(*b"democrac", &a, q.range(1, 1 << 40) as u128, WithdrawReasons::all());
		}
	});
	let v = View::of(&new);
	let mut q = r.clone();
	let old = edit(&new, || {
		if olds[MESSAGES] {
			old_messages(&v);
		}
		if olds[RELEASE] {
			old_locks(&v);
		}
		if olds[SCHEMAS] && mainnet {
			old_schemas(&v, &mut q);
		}
		for p in 0..N {
			if olds[p] {
				set_version(p, q.below(PALLETS[p].1 as u64) as u16);
			}
		}
	});
	let ov = View::of(&old);
	let mut want = edit(&old, || ());
	{
		// everything as in `new`, but the schemas as the old layout has them with the names they get
		let names = olds[SCHEMAS] && mainnet;
		let schemas = [&[storage::TOP][..], &prefix("Schemas", "")[..16]].concat();
		let mut m = (*new).clone();
		let mut ch = storage::Changes::new();
		m.map.keys().filter(|k| k.starts_with(&schemas)).for_each(|k| {
			ch.insert(k.clone(), None);
		});
		want.map.iter().filter(|x| x.0.starts_with(&schemas)).for_each(|(k, x)| {
			ch.insert(k.clone(), Some(x.clone()));
		});
		m.apply(&ch);
		want = edit(&Arc::new(m), || {
			set_version(SCHEMAS, 4);
			if names {
				new_schemas(&ov);
			}
		});
	}
	for p in 0..N {
		w.cov.add(format!("upgrade: {} {}", PALLETS[p].0, if olds[p] { "from the old layout" } else { "already done" }), 1);
	}
	w.cov.add("upgrade: messages moved", if olds[MESSAGES] { v.msg.map.len() as u64 } else { 0 });
	w.cov.add("upgrade: known schemas named", if olds[SCHEMAS] && mainnet { NAMES.iter().filter(|x| v.sch.info.contains_key(&x.0)).count() as u64 } else { 0 });
	w.cov.add("upgrade: locks turned into freezes", locks(&old).values().map(|l| l.iter().filter(|x| x.0 != *b"democrac").count() as u64).sum());
	let mut order: Vec<usize> = (0..N).collect();
	r.shuffle(&mut order);
	let all = |s: &Arc<State>| guarded(|| edit(s, || order.iter().for_each(|p| migrate(*p))));
	// cut short at some write: the state of the block before is all that is left
	if r.pct(60) {
		storage::fail_after(Some(r.below(60)));
		let e = all(&old);
		storage::fail_after(None);
		match e {
			Err(e) if e == storage::CUT => w.cov.add("fault: crash during an upgrade", 1),
			Err(e) => return w.viol("C20", "panic", e),
			Ok(_) => (),
		}
	}
	let done = match all(&old) {
		Ok(s) => s,
		Err(e) => return w.viol("C20", "panic", e),
	};
	// an old schedule is frozen in full, whatever of it was claimed before: listed
	if olds[RELEASE] {
		let (mut l, dv) = (vec![], View::of(&done));
		for (a, s) in &v.tr.map {
			let f = |v: &View| v.bal.freezes.get(a).and_then(|f| f.get(&release::FREEZE)).copied().unwrap_or(0);
			let total = s.iter().fold(0u128, |t, s| t.saturating_add(s.per.saturating_mul(s.count as u128)));
			if f(&v) != f(&dv) && f(&dv) == total {
				l.push((a.clone(), f(&v), total));
			}
		}
		if !l.is_empty() {
			w.viol("C20", "claimed-refrozen", format!("{:?} had {} locked, {} is frozen now", l[0].0, l[0].1, l[0].2));
			want = edit(&want, || {
				for (a, _, t) in &l {
					let _ = <Balances as MutateFreeze<Acc>>::set_freeze(&VESTING, a, *t);
				}
			});
		}
	}
	if let Some((p, t)) = differ(&done, &want) {
		return w.viol("C20", p, format!("after the upgrade of block {} ({:?}, {:?} old): {}", block.number, order, olds, t))
	}
	// again
	match all(&done) {
		Ok(s) if s.map == done.map => (),
		Ok(s) => {
			let t = differ(&s, &done).map(|x| x.1).unwrap_or("events or order".into());
			return w.viol("C20", "again", format!("a second upgrade changed something: {}", t))
		},
		Err(e) => return w.viol("C20", "panic", e),
	}
	in_block(w, n, &block, &state, &mut r, mainnet);
}
/// The upgrade the runtime has built in happens in the first block of the new version: that block and its transactions must
/// come out as on a chain that never needed it.
fn in_block(w: &mut World, n: usize, block: &Arc<BlockRec>, state: &Arc<State>, r: &mut Rng, mainnet: bool) {
	let old_layout = r.pct(60);
	let base = edit(state, || {
		(0..N).for_each(|p| set_version(p, PALLETS[p].1));
		if mainnet {
			storage::set(&at("System", "BlockHash", &[twox(0u32)]), &MAINNET);
		}
	});
	let v = View::of(&base);
	let mut q = r.clone();
	let before = edit(&base, || {
		if old_layout && mainnet {
			old_schemas(&v, &mut q);
		}
		if old_layout {
			set_version(SCHEMAS, q.below(4) as u16);
		}
	});
	let bv = View::of(&before);
	let after = edit(&before, || {
		set_version(SCHEMAS, 4);
		if old_layout && mainnet {
			new_schemas(&bv);
		}
	});
	let before = edit(&before, || {
		let k = prefix("System", "LastRuntimeUpgrade");
		match storage::get(&k).and_then(|b| u32::decode(&mut &b[..]).ok()) {
			Some(x) if q.pct(80) => storage::set(&k, &(x - 1 - q.below(3) as u32).encode()),
			_ => storage::clear(&k),
		}
	});
	let on = |state: Arc<State>| BlockRec {
		header: block.header.clone(),
		hash: block.hash,
		number: block.number,
		parent: block.parent,
		time: block.time,
		relay: block.relay,
		inherents: vec![],
		xts: vec![],
		sys_events: vec![],
		state,
		index: vec![],
		refused: vec![],
		init: vec![],
		fin: vec![],
		panics: vec![],
	};
	let pool: Vec<Arc<Tx>> = w.nodes[n].pool.iter().take(6).cloned().collect();
	let make = |s: Arc<State>| author(&on(s), block.time + 12_000, block.relay + 2, &pool);
	match (make(before), make(after)) {
		(Ok(a), Ok(b)) => {
			w.cov.add("upgrade: blocks of a new version", 1);
			let res = |x: &BlockRec| x.xts.iter().map(|x| (x.tx.id, x.res.is_ok())).collect::<Vec<_>>();
			if res(&a) != res(&b) {
				return w.viol("C20", "block", format!("the transactions of the first block of the new version came out differently: {:?} instead of {:?}", res(&a), res(&b)))
			}
			if let Some((p, t)) = differ(&a.state, &b.state) {
				w.viol("C20", p, format!("after the first block of a new version: {}", t));
			}
		},
		(Err(e), Ok(_)) => w.viol("C20", "panic", format!("the first block of a new version: {}", e)),
		(_, Err(_)) => (),
	}
}
