//! What the storage of a block says, decoded independently of the runtime's own getters.
use crate::chain::{Acc, Hash, Touched};
use simsdk::codec::{Compact, Decode, Encode};
use simsdk::hashing::{blake2_128, twox_128, twox_64};
use simsdk::storage::{self, State};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub type Bal = u128;

#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct AccInfo {
	pub nonce: u32,
	pub consumers: u32,
	pub providers: u32,
	pub sufficients: u32,
	pub free: Bal,
	pub reserved: Bal,
	pub frozen: Bal,
	pub flags: u128,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct Deleg {
	pub revoked_at: u32,
	pub perms: BTreeMap<u16, u32>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct MsaD {
	pub max_id: u64,
	pub keys: BTreeMap<Acc, u64>,
	pub count: BTreeMap<u64, u8>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct DelegD {
	/// (delegator, provider)
	pub map: BTreeMap<(u64, u64), Deleg>,
	pub prov: BTreeMap<u64, Vec<u8>>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct SigD {
	/// encoded signature -> (expires, next)
	pub list: BTreeMap<Vec<u8>, (u32, Vec<u8>)>,
	/// newest, its expiration, oldest, count
	pub ptr: Option<(Vec<u8>, u32, Vec<u8>, u32)>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct CapDetails {
	pub remaining: Bal,
	pub staked: Bal,
	pub issued: Bal,
	pub last_epoch: u32,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct CapD {
	/// account -> (active, staking type)
	pub ledger: BTreeMap<Acc, (Bal, u8)>,
	/// (account, provider) -> (amount, capacity)
	pub target: BTreeMap<(Acc, u64), (Bal, Bal)>,
	pub cap: BTreeMap<u64, CapDetails>,
	pub unlocks: BTreeMap<Acc, Vec<(Bal, u32)>>,
	pub epoch: u32,
	pub epoch_start: u32,
	pub epoch_len: Option<u32>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct HandD {
	pub owner: BTreeMap<(Vec<u8>, u16), u64>,
	/// msa -> (display name, expiration)
	pub name: BTreeMap<u64, (Vec<u8>, u32)>,
	/// canonical base -> (next index, suffix minimum)
	pub seq: BTreeMap<Vec<u8>, (u16, u16)>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct Msg {
	pub payload: Vec<u8>,
	pub provider: u64,
	pub msa: Option<u64>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct MsgD {
	pub index: u16,
	/// (block, schema, index)
	pub map: BTreeMap<(u32, u16, u16), Msg>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct SchemaI {
	pub model_type: u8,
	pub location: u8,
	pub settings: u16,
	pub has_name: bool,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct SchD {
	pub max_bytes: u32,
	pub max_id: u16,
	pub info: BTreeMap<u16, SchemaI>,
	pub model: BTreeMap<u16, Vec<u8>>,
	/// (namespace, descriptor) -> ids
	pub names: BTreeMap<(Vec<u8>, Vec<u8>), Vec<u16>>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct StorD {
	/// (msa, schema) -> (nonce, raw data)
	pub items: BTreeMap<(u64, u16), (u16, Vec<u8>)>,
	/// (msa, schema, page)
	pub pages: BTreeMap<(u64, u16, u16), (u16, Vec<u8>)>,
	pub other: BTreeMap<Vec<u8>, Vec<u8>>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sched {
	pub start: u32,
	pub period: u32,
	pub count: u32,
	pub per: Bal,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct TrD {
	pub map: BTreeMap<Acc, Vec<Sched>>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct BalD {
	pub acc: BTreeMap<Acc, AccInfo>,
	/// account -> freeze reason (pallet index, variant) -> amount
	pub freezes: BTreeMap<Acc, BTreeMap<(u8, u8), Bal>>,
	pub issuance: Bal,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ProxD {
	/// account -> [(delegate, type, delay)]
	pub map: BTreeMap<Acc, Vec<(Acc, u8, u32)>>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Decode, Encode)]
pub struct Votes {
	pub index: u32,
	pub threshold: u32,
	pub ayes: Vec<Acc>,
	pub nays: Vec<Acc>,
	pub end: u32,
}
/// the council or the technical committee
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Body {
	pub open: Vec<[u8; 32]>,
	/// encoded calls
	pub calls: BTreeMap<[u8; 32], Vec<u8>>,
	pub votes: BTreeMap<[u8; 32], Votes>,
	pub count: u32,
	pub members: Vec<Acc>,
	pub prime: Option<Acc>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct GovD {
	pub body: [Body; 2],
}

/// in whose name something is scheduled
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum By {
	Root,
	Voice(crate::model::gov::Voice),
	Other(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Task {
	pub id: Option<[u8; 32]>,
	pub prio: u8,
	pub call: Vec<u8>,
	pub periodic: Option<(u32, u32)>,
	pub by: By,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Multi {
	pub when: (u32, u32),
	pub by: Acc,
	pub approvals: Vec<Acc>,
}
/// treasury, scheduler, democracy, preimages, collator settings, multisig
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct ExtD {
	pub spends: BTreeMap<u32, (Acc, Bal, Acc)>,
	pub spend_count: u32,
	pub approvals: Vec<u32>,
	pub agenda: BTreeMap<u32, Vec<Option<Task>>>,
	pub lookup: BTreeMap<[u8; 32], (u32, u32)>,
	pub props: Vec<(u32, [u8; 32], Acc)>,
	pub prop_count: u32,
	/// end, proposal, threshold, delay
	pub refs: BTreeMap<u32, (u32, [u8; 32], u8, u32)>,
	pub ref_count: u32,
	pub next: Option<([u8; 32], u8)>,
	pub black: BTreeMap<[u8; 32], (u32, Vec<Acc>)>,
	pub cancelled: BTreeMap<[u8; 32], bool>,
	pub images: BTreeMap<[u8; 32], u32>,
	pub invulnerables: Vec<Acc>,
	pub desired: u32,
	pub bond: Bal,
	pub multi: BTreeMap<(Acc, [u8; 32]), Multi>,
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct View {
	pub msa: Arc<MsaD>,
	pub del: Arc<DelegD>,
	pub sig: Arc<SigD>,
	pub cap: Arc<CapD>,
	pub hand: Arc<HandD>,
	pub msg: Arc<MsgD>,
	pub sch: Arc<SchD>,
	pub stor: Arc<StorD>,
	pub tr: Arc<TrD>,
	pub bal: Arc<BalD>,
	pub prox: Arc<ProxD>,
	pub gov: Arc<GovD>,
	pub ext: Arc<ExtD>,
	/// keys of repository pallets the decoder has no place for, and values it cannot decode
	pub strange: Arc<BTreeMap<Vec<u8>, Vec<u8>>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum It {
	Account,
	Freezes,
	Issuance,
	Proxies,
	MaxId,
	Deleg,
	Prov,
	KeyMsa,
	KeyCount,
	SigList,
	SigPtr,
	EvCount,
	Ledger,
	Target,
	CapLedger,
	Epoch,
	EpochInfo,
	EpochLen,
	Unlocks,
	HOwner,
	HName,
	HSeq,
	MIndex,
	Msgs,
	SMaxBytes,
	SMaxId,
	SInfo,
	SModel,
	SNames,
	Sched,
	GOpen(usize),
	GCalls(usize),
	GVotes(usize),
	GCount(usize),
	GMembers(usize),
	GPrime(usize),
	XSpends,
	XSpendCount,
	XApprovals,
	XAgenda,
	XLookup,
	XProps,
	XPropCount,
	XRefs,
	XRefCount,
	XNext,
	XBlack,
	XCancelled,
	XImages,
	XInvulnerables,
	XDesired,
	XBond,
	XMulti,
}
fn items() -> HashMap<[u8; 32], It> {
	let mut m = HashMap::new();
	for (p, i, it) in [
		("System", "Account", It::Account),
		("Balances", "Freezes", It::Freezes),
		("Balances", "TotalIssuance", It::Issuance),
		("Proxy", "Proxies", It::Proxies),
		("Msa", "CurrentMsaIdentifierMaximum", It::MaxId),
		("Msa", "DelegatorAndProviderToDelegation", It::Deleg),
		("Msa", "ProviderToRegistryEntry", It::Prov),
		("Msa", "PublicKeyToMsaId", It::KeyMsa),
		("Msa", "PublicKeyCountForMsaId", It::KeyCount),
		("Msa", "PayloadSignatureRegistryList", It::SigList),
		("Msa", "PayloadSignatureRegistryPointer", It::SigPtr),
		("Msa", "OffchainIndexEventCount", It::EvCount),
		("Capacity", "StakingAccountLedger", It::Ledger),
		("Capacity", "StakingTargetLedger", It::Target),
		("Capacity", "CapacityLedger", It::CapLedger),
		("Capacity", "CurrentEpoch", It::Epoch),
		("Capacity", "CurrentEpochInfo", It::EpochInfo),
		("Capacity", "EpochLength", It::EpochLen),
		("Capacity", "UnstakeUnlocks", It::Unlocks),
		("Handles", "CanonicalBaseHandleAndSuffixToMSAId", It::HOwner),
		("Handles", "MSAIdToDisplayName", It::HName),
		("Handles", "CanonicalBaseHandleToSuffixIndex", It::HSeq),
		("Messages", "BlockMessageIndex", It::MIndex),
		("Messages", "MessagesV2", It::Msgs),
		("Schemas", "GovernanceSchemaModelMaxBytes", It::SMaxBytes),
		("Schemas", "CurrentSchemaIdentifierMaximum", It::SMaxId),
		("Schemas", "SchemaInfos", It::SInfo),
		("Schemas", "SchemaPayloads", It::SModel),
		("Schemas", "SchemaNameToIds", It::SNames),
		("TimeRelease", "ReleaseSchedules", It::Sched),
		("Treasury", "Proposals", It::XSpends),
		("Treasury", "ProposalCount", It::XSpendCount),
		("Treasury", "Approvals", It::XApprovals),
		("Scheduler", "Agenda", It::XAgenda),
		("Scheduler", "Lookup", It::XLookup),
		("Democracy", "PublicProps", It::XProps),
		("Democracy", "PublicPropCount", It::XPropCount),
		("Democracy", "ReferendumInfoOf", It::XRefs),
		("Democracy", "ReferendumCount", It::XRefCount),
		("Democracy", "NextExternal", It::XNext),
		("Democracy", "Blacklist", It::XBlack),
		("Democracy", "Cancellations", It::XCancelled),
		("Preimage", "RequestStatusFor", It::XImages),
		("CollatorSelection", "Invulnerables", It::XInvulnerables),
		("CollatorSelection", "DesiredCandidates", It::XDesired),
		("CollatorSelection", "CandidacyBond", It::XBond),
		("Multisig", "Multisigs", It::XMulti),
	] {
		m.insert(key32(p, i), it);
	}
	for (b, p) in ["Council", "TechnicalCommittee"].iter().enumerate() {
		for (i, it) in [("Proposals", It::GOpen(b)), ("ProposalOf", It::GCalls(b)), ("Voting", It::GVotes(b)), ("ProposalCount", It::GCount(b)), ("Members", It::GMembers(b)), ("Prime", It::GPrime(b))] {
			m.insert(key32(p, i), it);
		}
	}
	m
}
pub fn key32(p: &str, i: &str) -> [u8; 32] {
	let mut k = [0u8; 32];
	k[..16].copy_from_slice(&twox_128(p.as_bytes()));
	k[16..].copy_from_slice(&twox_128(i.as_bytes()));
	k
}
thread_local! {
	static ITEMS: HashMap<[u8; 32], It> = items();
	static REPO: Vec<[u8; 16]> = ["Msa", "Capacity", "Handles", "Messages", "Schemas", "TimeRelease", "StatefulStorage", "FrequencyTxPayment", "Passkey"].iter().map(|p| twox_128(p.as_bytes())).collect();
	static MSAS: HashMap<Vec<u8>, u64> = (0..400u64).map(|i| (blake2_128(&[&i.encode()[..], b"::"].concat()).to_vec(), i)).collect();
}
pub fn which(key: &[u8]) -> Option<It> {
	if key.len() < 33 || key[0] != storage::TOP {
		return None
	}
	let k: [u8; 32] = key[1..33].try_into().unwrap();
	ITEMS.with(|m| m.get(&k).copied())
}
fn d<T: Decode>(b: &[u8]) -> Option<T> {
	let mut x = b;
	let r = T::decode(&mut x).ok()?;
	x.is_empty().then_some(r)
}
fn set<K: Ord, V>(m: &mut BTreeMap<K, V>, k: K, v: Option<V>) {
	match v {
		Some(v) => {
			m.insert(k, v);
		},
		None => {
			m.remove(&k);
		},
	}
}

impl View {
	pub fn of(s: &State) -> View {
		let mut v = View::default();
		for (k, x) in s.map.iter() {
			v.put(k, Some(x));
		}
		v
	}
	pub fn apply(&mut self, t: &Touched) {
		for (k, _, new) in t {
			self.put(k, new.as_deref());
		}
	}
	pub fn put(&mut self, key: &[u8], val: Option<&[u8]>) {
		let ok = match key[0] {
			storage::TOP => match which(key) {
				Some(it) => self.top(it, &key[33..], val).is_some(),
				None => {
					// ":__STORAGE_VERSION__:" and item storages we do not know
					let repo = key.len() >= 17 && REPO.with(|r| r.iter().any(|p| p[..] == key[1..17]));
					!repo || key.len() == 33
				},
			},
			storage::CHILD => self.child(&key[1..], val).is_some(),
			_ => true,
		};
		if !ok {
			set(Arc::make_mut(&mut self.strange), key.to_vec(), val.map(|v| v.to_vec()));
		}
	}
	fn child(&mut self, k: &[u8], val: Option<&[u8]>) -> Option<()> {
		let st = Arc::make_mut(&mut self.stor);
		let l = u32::from_be_bytes(k.get(..4)?.try_into().ok()?) as usize;
		let (name, key) = (&k[4..4 + l], &k[4 + l..]);
		let v = match val {
			None => None,
			Some(x) => Some(d::<(u16, Vec<u8>)>(x)),
		};
		let r = (|| {
			let n = name.get(name.len().checked_sub(32)?..)?;
			let msa = MSAS.with(|m| m.get(&n[..16]).copied())?;
			let v = match v {
				None => None,
				Some(x) => Some(x?),
			};
			let (it, pg) = (twox_64(b"itemized"), twox_64(b"paginated"));
			if n[24..] == it && key.len() == 18 {
				set(&mut st.items, (msa, d(&key[16..])?), v);
			} else if n[24..] == pg && key.len() == 36 {
				let (s, p): (u16, u16) = d(&key[32..])?;
				set(&mut st.pages, (msa, s, p), v);
			} else {
				return None
			}
			Some(())
		})();
		if r.is_none() {
			set(&mut st.other, k.to_vec(), val.map(|x| x.to_vec()));
		}
		Some(())
	}
	fn top(&mut self, it: It, k: &[u8], val: Option<&[u8]>) -> Option<()> {
		macro_rules! v {
			($t:ty) => {
				match val {
					None => None,
					Some(x) => Some(d::<$t>(x)?),
				}
			};
		}
		// twox64concat / blake2_128concat / double
		let t1 = || k.get(8..);
		let b1 = || k.get(16..);
		match it {
			It::Account => set(&mut Arc::make_mut(&mut self.bal).acc, d(b1()?)?, v!(AccInfo)),
			It::Freezes => {
				let v = v!(Vec<((u8, u8), Bal)>);
				set(&mut Arc::make_mut(&mut self.bal).freezes, d(b1()?)?, v.map(|v| v.into_iter().collect()))
			},
			It::Issuance => Arc::make_mut(&mut self.bal).issuance = v!(Bal).unwrap_or(0),
			It::Proxies => {
				let v = v!(Vec<(Acc, u8, u32)>);
				set(&mut Arc::make_mut(&mut self.prox).map, d(t1()?)?, v)
			},
			It::MaxId => Arc::make_mut(&mut self.msa).max_id = v!(u64).unwrap_or(0),
			It::Deleg => {
				let a: u64 = d(k.get(8..16)?)?;
				let b: u64 = d(k.get(24..)?)?;
				set(&mut Arc::make_mut(&mut self.del).map, (a, b), v!(Deleg))
			},
			It::Prov => set(&mut Arc::make_mut(&mut self.del).prov, d(t1()?)?, v!(Vec<u8>)),
			It::KeyMsa => set(&mut Arc::make_mut(&mut self.msa).keys, d(t1()?)?, v!(u64)),
			It::KeyCount => set(&mut Arc::make_mut(&mut self.msa).count, d(t1()?)?, v!(u8)),
			It::SigList => {
				let v = match val {
					None => None,
					Some(x) => Some((d::<u32>(x.get(..4)?)?, x[4..].to_vec())),
				};
				set(&mut Arc::make_mut(&mut self.sig).list, t1()?.to_vec(), v)
			},
			It::SigPtr => {
				let s = v!((simsdk::sp_runtime::MultiSignature, u32, simsdk::sp_runtime::MultiSignature, u32));
				Arc::make_mut(&mut self.sig).ptr = s.map(|(a, e, b, c)| (a.encode(), e, b.encode(), c))
			},
			It::EvCount => {},
			It::Ledger => set(&mut Arc::make_mut(&mut self.cap).ledger, d(t1()?)?, v!((Bal, u8))),
			It::Target => {
				let a: Acc = d(k.get(8..40)?)?;
				let b: u64 = d(k.get(48..)?)?;
				set(&mut Arc::make_mut(&mut self.cap).target, (a, b), v!((Bal, Bal)))
			},
			It::CapLedger => set(&mut Arc::make_mut(&mut self.cap).cap, d(t1()?)?, v!(CapDetails)),
			It::Epoch => Arc::make_mut(&mut self.cap).epoch = v!(u32).unwrap_or(0),
			It::EpochInfo => Arc::make_mut(&mut self.cap).epoch_start = v!(u32).unwrap_or(0),
			It::EpochLen => Arc::make_mut(&mut self.cap).epoch_len = v!(u32),
			It::Unlocks => set(&mut Arc::make_mut(&mut self.cap).unlocks, d(t1()?)?, v!(Vec<(Bal, u32)>)),
			It::HOwner => {
				let mut x = b1()?;
				let base = Vec::<u8>::decode(&mut x).ok()?;
				set(&mut Arc::make_mut(&mut self.hand).owner, (base, d(x.get(8..)?)?), v!(u64))
			},
			It::HName => set(&mut Arc::make_mut(&mut self.hand).name, d(t1()?)?, v!((Vec<u8>, u32))),
			It::HSeq => set(&mut Arc::make_mut(&mut self.hand).seq, d(b1()?)?, v!((u16, u16))),
			It::MIndex => Arc::make_mut(&mut self.msg).index = v!(u16).unwrap_or(0),
			It::Msgs => {
				let b: u32 = d(k.get(8..12)?)?;
				let s: u16 = d(k.get(20..22)?)?;
				let i: u16 = d(k.get(30..)?)?;
				set(&mut Arc::make_mut(&mut self.msg).map, (b, s, i), v!(Msg))
			},
			It::SMaxBytes => Arc::make_mut(&mut self.sch).max_bytes = v!(u32).unwrap_or(0),
			It::SMaxId => Arc::make_mut(&mut self.sch).max_id = v!(u16).unwrap_or(0),
			It::SInfo => set(&mut Arc::make_mut(&mut self.sch).info, d(t1()?)?, v!(SchemaI)),
			It::SModel => set(&mut Arc::make_mut(&mut self.sch).model, d(t1()?)?, v!(Vec<u8>)),
			It::SNames => {
				let mut x = b1()?;
				let ns = Vec::<u8>::decode(&mut x).ok()?;
				let de: Vec<u8> = d(x.get(16..)?)?;
				set(&mut Arc::make_mut(&mut self.sch).names, (ns, de), v!(Vec<u16>))
			},
			It::GOpen(b) => Arc::make_mut(&mut self.gov).body[b].open = v!(Vec<[u8; 32]>).unwrap_or_default(),
			It::GCalls(b) => set(&mut Arc::make_mut(&mut self.gov).body[b].calls, d(k)?, val.map(|v| v.to_vec())),
			It::GVotes(b) => {
				let v = v!(Votes);
				set(&mut Arc::make_mut(&mut self.gov).body[b].votes, d(k)?, v)
			},
			It::GCount(b) => Arc::make_mut(&mut self.gov).body[b].count = v!(u32).unwrap_or(0),
			It::GMembers(b) => Arc::make_mut(&mut self.gov).body[b].members = v!(Vec<Acc>).unwrap_or_default(),
			It::GPrime(b) => Arc::make_mut(&mut self.gov).body[b].prime = v!(Acc),
			It::XSpends => {
				let v = v!((Acc, Bal, Acc));
				set(&mut Arc::make_mut(&mut self.ext).spends, d(t1()?)?, v)
			},
			It::XSpendCount => Arc::make_mut(&mut self.ext).spend_count = v!(u32).unwrap_or(0),
			It::XApprovals => Arc::make_mut(&mut self.ext).approvals = v!(Vec<u32>).unwrap_or_default(),
			It::XAgenda => {
				use crate::model::gov::Voice;
				use frequency_runtime::OriginCaller as O;
				use simsdk::pallets::{collective::RawOrigin as R, offices::scheduler::Scheduled};
				let v = v!(Vec<Option<Scheduled<frequency_runtime::RuntimeCall, O>>>);
				let by = |o: O| match o {
					O::system(simsdk::frame_system::RawOrigin::Root) => By::Root,
					O::Council(R::Members(n, m)) => By::Voice(Voice::Members(0, n, m)),
					O::TechnicalCommittee(R::Members(n, m)) => By::Voice(Voice::Members(1, n, m)),
					O::Council(R::Member(a)) => By::Voice(Voice::Member(0, a)),
					O::TechnicalCommittee(R::Member(a)) => By::Voice(Voice::Member(1, a)),
					o => By::Other(o.encode()),
				};
				let v = v.map(|v| v.into_iter().map(|t| t.map(|t| Task { id: t.maybe_id, prio: t.priority, call: t.call.encode(), periodic: t.maybe_periodic, by: by(t.origin) })).collect::<Vec<_>>());
				set(&mut Arc::make_mut(&mut self.ext).agenda, d(t1()?)?, v)
			},
			It::XLookup => {
				let v = v!((u32, u32));
				set(&mut Arc::make_mut(&mut self.ext).lookup, d(t1()?)?, v)
			},
			It::XProps => Arc::make_mut(&mut self.ext).props = v!(Vec<(u32, [u8; 32], Acc)>).unwrap_or_default(),
			It::XPropCount => Arc::make_mut(&mut self.ext).prop_count = v!(u32).unwrap_or(0),
			It::XRefs => {
				let v = v!((u32, [u8; 32], u8, u32));
				set(&mut Arc::make_mut(&mut self.ext).refs, d(t1()?)?, v)
			},
			It::XRefCount => Arc::make_mut(&mut self.ext).ref_count = v!(u32).unwrap_or(0),
			It::XNext => Arc::make_mut(&mut self.ext).next = v!(([u8; 32], u8)),
			It::XBlack => {
				let v = v!((u32, Vec<Acc>));
				set(&mut Arc::make_mut(&mut self.ext).black, d(k)?, v)
			},
			It::XCancelled => {
				let v = v!(bool);
				set(&mut Arc::make_mut(&mut self.ext).cancelled, d(k)?, v)
			},
			It::XImages => {
				let v = v!(u32);
				set(&mut Arc::make_mut(&mut self.ext).images, d(k)?, v)
			},
			It::XInvulnerables => Arc::make_mut(&mut self.ext).invulnerables = v!(Vec<Acc>).unwrap_or_default(),
			It::XDesired => Arc::make_mut(&mut self.ext).desired = v!(u32).unwrap_or(0),
			It::XBond => Arc::make_mut(&mut self.ext).bond = v!(Bal).unwrap_or(0),
			It::XMulti => {
				let v = v!(((u32, u32), Acc, Vec<Acc>));
				let k = t1()?;
				let key = (d(k.get(..32)?)?, d(k.get(48..)?)?);
				set(&mut Arc::make_mut(&mut self.ext).multi, key, v.map(|v| Multi { when: v.0, by: v.1, approvals: v.2 }))
			},
			It::Sched => {
				let v = v!(Vec<(u32, u32, u32, Compact<Bal>)>);
				set(
					&mut Arc::make_mut(&mut self.tr).map,
					d(b1()?)?,
					v.map(|v| v.into_iter().map(|(start, period, count, per)| Sched { start, period, count, per: per.0 }).collect()),
				)
			},
		}
		Some(())
	}

	// ---- derived facts
	pub fn msa_of(&self, a: &Acc) -> Option<u64> {
		self.msa.keys.get(a).copied()
	}
	pub fn keys_of(&self, m: u64) -> Vec<Acc> {
		self.msa.keys.iter().filter(|x| *x.1 == m).map(|x| x.0.clone()).collect()
	}
	pub fn nonce(&self, a: &Acc) -> u32 {
		self.bal.acc.get(a).map(|x| x.nonce).unwrap_or(0)
	}
	pub fn free(&self, a: &Acc) -> Bal {
		self.bal.acc.get(a).map(|x| x.free).unwrap_or(0)
	}
}
#[allow(dead_code)]
pub fn short(h: &Hash) -> String {
	format!("{:02x}{:02x}{:02x}", h.0[0], h.0[1], h.0[2])
}
