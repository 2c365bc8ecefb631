//! What clients ask: the repository's RPC handlers over the simulated nodes.
//!
//! A query is a sequence of calls from the handler to its node; between any two of them the node may switch to another
//! head, or lose the states it was asked about. The answer has to be what one head of that time says.
use crate::chain::*;
use crate::gen::{good_base, spoil_base};
use crate::model::{self, handles, schemas, storage, validity};
use crate::refhandle;
use crate::rng::Rng;
use crate::view::View;
use crate::world::World;
use common_primitives::messages::BlockPaginationRequest;
use common_primitives::msa::{DelegatorId, ProviderId};
use frequency_runtime::{Block, UncheckedExtrinsic};
use pallet_frequency_tx_payment_rpc::{CapacityPaymentApiServer, CapacityPaymentHandler};
use pallet_handles_rpc::{HandlesApiServer, HandlesHandler};
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use pallet_msa_rpc::{MsaApiServer, MsaHandler};
use pallet_schemas_rpc::{SchemasApiServer, SchemasHandler};
use pallet_stateful_storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
use serde_json::{json, Value};
use simsdk::codec::{Decode, Encode};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
use std::sync::Arc;

/// A node's off-chain database as RPC handlers see it.
#[derive(Clone)]
pub struct Db(pub Arc<BTreeMap<Vec<u8>, Vec<u8>>>);
impl simsdk::sp_core::offchain::OffchainStorage for Db {
	fn set(&mut self, _: &[u8], _: &[u8], _: &[u8]) {}
	fn remove(&mut self, _: &[u8], _: &[u8]) {}
	fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>> {
		(prefix == simsdk::sp_core::offchain::STORAGE_PREFIX).then(|| self.0.get(key).cloned()).flatten()
	}
	fn compare_and_set(&mut self, _: &[u8], _: &[u8], _: Option<&[u8]>, _: &[u8]) -> bool {
		false
	}
}
/// A node as RPC handlers see it.
pub struct Client {
	/// from which call on, which head, its number
	pub heads: Vec<(u32, Hash, u32)>,
	pub source: Arc<Source>,
}
/// The states a node has, and what goes wrong with them.
#[derive(Default)]
pub struct Source {
	pub known: HashMap<Hash, Arc<simsdk::storage::State>>,
	/// calls answered so far
	pub calls: AtomicU32,
	/// no state is found after so many calls
	pub until: Option<u32>,
	pub missed: AtomicBool,
}
impl frequency_runtime::StateSource for Source {
	fn state_at(&self, at: Hash) -> Option<Arc<simsdk::storage::State>> {
		let k = self.calls.fetch_add(1, Relaxed);
		let r = match self.until {
			Some(u) if k >= u => None,
			_ => self.known.get(&at).cloned(),
		};
		if r.is_none() {
			self.missed.store(true, Relaxed);
		}
		r
	}
}
impl simsdk::sp_api::ProvideRuntimeApi<Block> for Client {
	type Api = frequency_runtime::SimRuntimeApi;
	fn runtime_api(&self) -> simsdk::sp_api::ApiRef<'_, Self::Api> {
		frequency_runtime::SimRuntimeApi(self.source.clone()).into()
	}
}
use simsdk::sp_blockchain as bc;
impl bc::HeaderBackend<Block> for Client {
	fn info(&self) -> bc::Info<Block> {
		let k = self.source.calls.fetch_add(1, Relaxed);
		let (_, best_hash, best_number) = *self.heads.iter().rev().find(|h| h.0 <= k).unwrap();
		bc::Info { best_hash, best_number, genesis_hash: Default::default(), finalized_hash: best_hash, finalized_number: best_number }
	}
	fn header(&self, _: Hash) -> bc::Result<Option<Header>> {
		Ok(None)
	}
	fn hash(&self, _: u32) -> bc::Result<Option<Hash>> {
		Ok(None)
	}
	fn number(&self, _: Hash) -> bc::Result<Option<u32>> {
		Ok(None)
	}
}
pub fn keys_of(db: &Db, msa: u64) -> Result<Option<Vec<Acc>>, String> {
	let c = Arc::new(Client { heads: vec![(0, Default::default(), 0)], source: Default::default() });
	let h: MsaHandler<Client, Block, Db> = MsaHandler::new(c, Some(db.clone()));
	let r = MsaApiServer::<Hash, Acc>::get_keys_by_msa_id(&h, msa).map_err(|e| format!("{:?}", e))?;
	match r {
		Some(k) if k.msa_id != msa => Err(format!("asked for MSA {}, answered for {}", msa, k.msa_id)),
		r => Ok(r.map(|k| k.msa_keys)),
	}
}

#[derive(Clone)]
pub enum Q {
	Delegations { of: Vec<u64>, provider: u64, at: u32, schema: Option<u16> },
	Grants { of: u64, provider: u64 },
	AllGrants { of: u64 },
	Messages { schema: u16, from: u32, to: u32, index: u32, size: u32 },
	Schema { id: u16 },
	Valid { model: Vec<u8> },
	Versions { name: String },
	Pages { msa: u64, schema: u16 },
	Items { msa: u64, schema: u16 },
	Handle { msa: u64 },
	Suffixes { base: String, count: Option<u16> },
	Owner { display: String },
	Validate { base: String },
	Fee { xt: Vec<u8>, at: Option<Hash> },
	Events { at: Hash },
	/// `of` has transactions with these nonces ready and waiting
	Nonces { of: Acc, ready: Vec<u32>, future: Vec<u32>, seed: u64 },
}
impl Q {
	fn name(&self) -> &'static str {
		match self {
			Q::Delegations { .. } => "delegations",
			Q::Grants { .. } => "grants",
			Q::AllGrants { .. } => "all grants",
			Q::Messages { .. } => "messages",
			Q::Schema { .. } => "schema",
			Q::Valid { .. } => "schema validity",
			Q::Versions { .. } => "versions",
			Q::Pages { .. } => "pages",
			Q::Items { .. } => "items",
			Q::Handle { .. } => "handle",
			Q::Suffixes { .. } => "suffixes",
			Q::Owner { .. } => "owner of a handle",
			Q::Validate { .. } => "handle validity",
			Q::Fee { .. } => "fee",
			Q::Events { .. } => "events",
			Q::Nonces { .. } => "missing nonces",
		}
	}
}
impl std::fmt::Debug for Q {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		match self {
			Q::Delegations { of, provider, at, schema } => write!(f, "delegations of {:?} to {} at {} for schema {:?}", of, provider, at, schema),
			Q::Grants { of, provider } => write!(f, "grants of {} to {}", of, provider),
			Q::AllGrants { of } => write!(f, "all grants of {}", of),
			Q::Messages { schema, from, to, index, size } => write!(f, "messages of schema {} in {}..{} from index {}, {} a page", schema, from, to, index, size),
			Q::Schema { id } => write!(f, "schema {}", id),
			Q::Valid { model } => write!(f, "validity of {:?}", String::from_utf8_lossy(model)),
			Q::Versions { name } => write!(f, "versions of {:?}", name),
			Q::Pages { msa, schema } => write!(f, "pages of MSA {} schema {}", msa, schema),
			Q::Items { msa, schema } => write!(f, "items of MSA {} schema {}", msa, schema),
			Q::Handle { msa } => write!(f, "handle of MSA {}", msa),
			Q::Suffixes { base, count } => write!(f, "{:?} suffixes of {:?}", count, base),
			Q::Owner { display } => write!(f, "owner of {:?}", display),
			Q::Validate { base } => write!(f, "validity of the handle {:?}", base),
			Q::Fee { xt, at } => match UncheckedExtrinsic::decode(&mut &xt[..]) {
				Ok(x) => write!(f, "Capacity fee of {} at {:?}", crate::oracle::describe(&x.function), at),
				Err(_) => write!(f, "Capacity fee of {} bytes at {:?}", xt.len(), at),
			},
			Q::Events { at } => write!(f, "events of {:?}", at),
			Q::Nonces { of, ready, future, .. } => write!(f, "missing nonces of {:?}, ready are {:?}, waiting are {:?}", of, ready, future),
		}
	}
}
/// Lists whose order means nothing, in one order.
fn unordered(q: &Q, v: Value) -> Value {
	match (q, v) {
		(Q::AllGrants { .. } | Q::Versions { .. } | Q::Pages { .. }, Value::Array(mut a)) => {
			a.sort_by_key(|x| x.to_string());
			Value::Array(a)
		},
		(_, v) => v,
	}
}
type Ans = Result<Value, String>;
/// Asks the repository's handlers.
fn ask(c: Arc<Client>, q: &Q) -> Ans {
	fn out<T: serde::Serialize, E: std::fmt::Debug>(r: Result<T, E>) -> Ans {
		r.map_err(|e| format!("{:?}", e)).map(|v| serde_json::to_value(&v).unwrap_or_else(|e| json!({ "no json": e.to_string() })))
	}
	let msa = || MsaHandler::<Client, Block, Db>::new(c.clone(), None);
	let han = || HandlesHandler::<Client, Block>::new(c.clone());
	let sch = || SchemasHandler::<Client, Block>::new(c.clone());
	let sto = || StatefulStorageHandler::<Client, Block>::new(c.clone());
	let r = match q.clone() {
		Q::Delegations { of, provider, at, schema } => out(MsaApiServer::<Hash, Acc>::check_delegations(&msa(), of.into_iter().map(DelegatorId).collect(), ProviderId(provider), at, schema)),
		Q::Grants { of, provider } => out(MsaApiServer::<Hash, Acc>::get_granted_schemas_by_msa_id(&msa(), DelegatorId(of), ProviderId(provider))),
		Q::AllGrants { of } => out(MsaApiServer::<Hash, Acc>::get_all_granted_delegations_by_msa_id(&msa(), DelegatorId(of))),
		Q::Messages { schema, from, to, index, size } => {
			let h = MessagesHandler::<Client, Block>::new(c.clone());
			out(MessagesApiServer::get_messages_by_schema_id(&h, schema, BlockPaginationRequest { from_block: from, from_index: index, to_block: to, page_size: size }))
		},
		Q::Schema { id } => out(SchemasApiServer::<Hash>::get_by_schema_id(&sch(), id)),
		Q::Valid { model } => out(SchemasApiServer::<Hash>::check_schema_validity(&sch(), model, None)),
		Q::Versions { name } => out(SchemasApiServer::<Hash>::get_versions(&sch(), name)),
		Q::Pages { msa, schema } => out(StatefulStorageApiServer::<Hash>::get_paginated_storage(&sto(), msa, schema)),
		Q::Items { msa, schema } => out(StatefulStorageApiServer::<Hash>::get_itemized_storage(&sto(), msa, schema)),
		Q::Handle { msa } => out(HandlesApiServer::<Hash>::get_handle_for_msa(&han(), msa)),
		Q::Suffixes { base, count } => out(HandlesApiServer::<Hash>::get_next_suffixes(&han(), base, count)),
		Q::Owner { display } => out(HandlesApiServer::<Hash>::get_msa_for_handle(&han(), display)),
		Q::Validate { base } => out(HandlesApiServer::<Hash>::validate_handle(&han(), base)),
		Q::Fee { xt, at } => {
			let h = CapacityPaymentHandler::<Client, Block>::new(c.clone());
			let r = CapacityPaymentApiServer::<Hash, u128>::compute_capacity_fee_details(&h, xt.into(), at);
			use simsdk::sp_rpc::number::NumberOrHex as N;
			let n = |x: N| match x {
				N::Number(n) => json!(n.to_string()),
				N::Hex(h) => json!(h.to_string()),
			};
			out(r.map(|f| match f.inclusion_fee {
				None => Value::Null,
				Some(i) => json!([n(i.base_fee), n(i.len_fee), n(i.adjusted_weight_fee)]),
			}))
		},
		#[cfg(feature = "noderpc")]
		Q::Events { at } => {
			use frequency_node_rpc::frequency_rpc::*;
			let h = FrequencyRpcHandler::<pool::Pool, Client, Block>::new(c.clone(), Default::default());
			out(FrequencyRpcApiServer::<Block, Acc, u32>::get_events(&h, at))
		},
		#[cfg(feature = "noderpc")]
		Q::Nonces { of, ready, future, seed } => {
			use frequency_node_rpc::frequency_rpc::*;
			let h = FrequencyRpcHandler::<pool::Pool, Client, Block>::new(c.clone(), Arc::new(pool::Pool::of(&of, &ready, &future, seed)));
			out(FrequencyRpcApiServer::<Block, Acc, u32>::get_missing_nonce_values(&h, of))
		},
		#[cfg(not(feature = "noderpc"))]
		Q::Events { .. } | Q::Nonces { .. } => Err("not built".into()),
	};
	r.map(|v| unordered(q, v))
}
/// The pool of a node as the node's own RPC sees it.
#[cfg(feature = "noderpc")]
mod pool {
	use super::*;
	use sc_transaction_pool_api::*;
	#[derive(Default)]
	pub struct Pool {
		ready: Vec<Arc<InPool>>,
		future: Vec<InPool>,
	}
	#[derive(Clone, Default)]
	pub struct InPool {
		hash: Hash,
		data: (),
		tags: Vec<TransactionTag>,
		needs: Vec<TransactionTag>,
	}
	impl InPoolTransaction for InPool {
		type Transaction = ();
		type Hash = Hash;
		fn data(&self) -> &() {
			&self.data
		}
		fn hash(&self) -> &Hash {
			&self.hash
		}
		fn priority(&self) -> &u64 {
			&0
		}
		fn longevity(&self) -> &u64 {
			&64
		}
		fn requires(&self) -> &[TransactionTag] {
			&self.needs
		}
		fn provides(&self) -> &[TransactionTag] {
			&self.tags
		}
		fn is_propagable(&self) -> bool {
			true
		}
	}
	struct Iter(std::vec::IntoIter<Arc<InPool>>);
	impl Iterator for Iter {
		type Item = Arc<InPool>;
		fn next(&mut self) -> Option<Arc<InPool>> {
			self.0.next()
		}
	}
	impl ReadyTransactions for Iter {
		fn report_invalid(&mut self, _: &Arc<InPool>) {}
	}
	impl TransactionPool for Pool {
		type Block = Block;
		type Hash = Hash;
		type InPoolTransaction = InPool;
		fn status(&self) -> PoolStatus {
			PoolStatus { ready: self.ready.len(), future: self.future.len(), ..Default::default() }
		}
		fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<InPool>> + Send> {
			Box::new(Iter(self.ready.clone().into_iter()))
		}
		fn futures(&self) -> Vec<InPool> {
			self.future.clone()
		}
		fn ready_transaction(&self, hash: &Hash) -> Option<Arc<InPool>> {
			self.ready.iter().find(|x| x.hash == *hash).cloned()
		}
	}
	impl Pool {
		/// Those of one account among those of others: ready ones of an account in order, waiting ones in any.
		pub fn of(who: &Acc, ready: &[u32], future: &[u32], seed: u64) -> Pool {
			let mut r = Rng::new(seed);
			let tx = |a: &Acc, n: u32| InPool {
				hash: simsdk::sp_core::H256(simsdk::hashing::blake2_256(&(a, n, "pool").encode())),
				tags: vec![(a, n).encode()],
				needs: if n > 0 { vec![(a, n - 1).encode()] } else { vec![] },
				..Default::default()
			};
			let mut p = Pool::default();
			let mut mine: std::collections::VecDeque<u32> = ready.iter().copied().collect();
			let others: Vec<Acc> = (0..4).map(crate::users::acc).filter(|a| a != who).collect();
			let mut next: Vec<u32> = others.iter().map(|_| r.below(20) as u32).collect();
			while !mine.is_empty() || r.pct(60) {
				match r.below(5) {
					0..=1 => p.ready.extend(mine.pop_front().map(|n| Arc::new(tx(who, n)))),
					2 => p.ready.push(Arc::new(InPool { tags: if r.pct(50) { vec![] } else { vec![("FreeTx", r.next()).encode()] }, ..Default::default() })),
					_ => {
						let i = r.idx(others.len());
						p.ready.push(Arc::new(tx(&others[i], next[i])));
						next[i] += 1;
					},
				}
			}
			p.future = future.iter().map(|n| tx(who, *n)).collect();
			for _ in 0..r.below(6) {
				let i = r.idx(others.len());
				p.future.push(tx(&others[i], next[i] + 1 + r.below(5) as u32));
			}
			r.shuffle(&mut p.future);
			p
		}
	}
}
fn hex(b: &[u8]) -> String {
	let mut s = "0x".to_string();
	for x in b {
		s.push_str(&format!("{:02x}", x));
	}
	s
}
/// What the state says: acceptable answers, and the listed defect each of them shows.
fn expected(v: &View, n: u32, q: &Q) -> Option<Vec<(Ans, Option<&'static str>)>> {
	let no = || Err(String::new());
	let one = |a: Ans| Some(vec![(a.map(|v| unordered(q, v)), None)]);
	let grants = |d: &crate::view::Deleg| {
		Value::Array(
			d.perms
				.iter()
				.map(|(s, r)| {
					let r = match (*r, d.revoked_at) {
						(r, 0) => r,
						(0, d) => d,
						(r, d) => r.min(d),
					};
					json!({ "schema_id": s, "revoked_at": r })
				})
				.collect(),
		)
	};
	match q {
		Q::Delegations { of, provider, at, schema } => {
			let l = of
				.iter()
				.map(|d| {
					let ok = *at <= n &&
						v.del.map.get(&(*d, *provider)).map_or(false, |x| {
							model::msa::alive(x.revoked_at, *at) && schema.map_or(true, |s| x.perms.get(&s).map_or(false, |r| model::msa::alive(*r, *at)))
						});
					json!([d, ok])
				})
				.collect();
			one(Ok(Value::Array(l)))
		},
		Q::Grants { of, provider } => one(Ok(v.del.map.get(&(*of, *provider)).filter(|d| !d.perms.is_empty()).map(grants).unwrap_or(Value::Null))),
		Q::AllGrants { of } => one(Ok(Value::Array(v.del.map.iter().filter(|x| x.0 .0 == *of).map(|(k, d)| json!({ "provider_id": k.1, "permissions": grants(d) })).collect()))),
		Q::Schema { id } => one(Ok(match (v.sch.info.get(id), v.sch.model.get(id)) {
			(Some(i), Some(m)) => json!({
				"schema_id": id,
				"model": String::from_utf8(m.clone()).ok()?,
				"model_type": (["AvroBinary", "Parquet"][i.model_type as usize]),
				"payload_location": (["OnChain", "IPFS", "Itemized", "Paginated"][i.location as usize]),
				"settings": settings(i.settings),
			}),
			_ => Value::Null,
		})),
		Q::Valid { model } => match std::str::from_utf8(model).ok().and_then(|m| GOOD.iter().find(|g| **g == m)) {
			Some(_) => one(Ok(json!(true))),
			None => one(no()),
		},
		Q::Versions { name } => one(Ok(match schemas::parse_name(name.as_bytes(), false) {
			None => Value::Null,
			Some((ns, de)) => Value::Array(
				v.sch
					.names
					.iter()
					.filter(|((a, b), _)| *a == ns && (de.is_empty() || *b == de))
					.flat_map(|((a, b), ids)| {
						let full = format!("{}.{}", String::from_utf8_lossy(a), String::from_utf8_lossy(b));
						ids.iter().enumerate().map(move |(i, id)| json!({ "schema_name": full, "schema_version": i + 1, "schema_id": id }))
					})
					.collect(),
			),
		})),
		Q::Pages { msa, schema } => match v.sch.info.get(schema) {
			Some(i) if i.location == storage::PAGINATED => one(Ok(Value::Array(
				v.stor
					.pages
					.range((*msa, *schema, 0)..=(*msa, *schema, u16::MAX))
					.map(|((m, s, p), x)| json!({ "page_id": p, "msa_id": m, "schema_id": s, "content_hash": storage::page_hash(Some(x)), "nonce": x.0, "payload": hex(&x.1) }))
					.collect(),
			))),
			_ => one(no()),
		},
		Q::Items { msa, schema } => match v.sch.info.get(schema) {
			Some(i) if i.location == storage::ITEMIZED => {
				let p = v.stor.items.get(&(*msa, *schema));
				let items: Vec<Value> = storage::items(p.map(|p| &p.1[..]).unwrap_or(&[]))?.iter().enumerate().map(|(i, x)| json!({ "index": i, "payload": hex(x) })).collect();
				one(Ok(json!({ "msa_id": msa, "schema_id": schema, "content_hash": storage::page_hash(p), "nonce": p.map(|p| p.0).unwrap_or(0), "items": items })))
			},
			_ => one(no()),
		},
		Q::Handle { msa } => one(Ok(match v.hand.name.get(msa) {
			None => Value::Null,
			Some((d, _)) => {
				let (base, suffix) = handles::split(d)?;
				json!({ "canonical_base": refhandle::canonical(&base), "base_handle": base, "suffix": suffix })
			},
		})),
		Q::Suffixes { base, count } => {
			if base.len() > 32 {
				return one(no())
			}
			let canonical = refhandle::canonical(base);
			if canonical.len() > 32 {
				return None
			}
			let next = match v.hand.seq.get(canonical.as_bytes()) {
				Some((i, min)) if *min == handles::MIN => *i as usize + 1,
				_ => 0,
			};
			let l: Vec<u16> = handles::sequence(&canonical).ok()?.into_iter().skip(next).take(count.unwrap_or(1).min(100) as usize).collect();
			one(Ok(json!({ "base_handle": base, "suffixes": l })))
		},
		Q::Owner { display } => {
			if display.len() > 38 {
				return one(no())
			}
			one(Ok(match handles::split(display.as_bytes()) {
				None => Value::Null,
				// no base has the delimiter in it, though a canonical form may
				Some((base, _)) if base.contains('.') => Value::Null,
				Some((base, s)) => match v.hand.owner.get(&(refhandle::canonical(&base).into_bytes(), s)) {
					Some(m) => json!(m),
					None => Value::Null,
				},
			}))
		},
		Q::Validate { base } => match handles::refuse(base.as_bytes()) {
			Some(handles::BEYOND) => None,
			w => one(Ok(json!(w.is_none()))),
		},
		Q::Fee { xt, .. } => {
			let Ok(x) = UncheckedExtrinsic::decode(&mut &xt[..]) else { return one(no()) };
			use simsdk::frame_support::dispatch::GetDispatchInfo;
			let wrapped = validity::capacity_calls(&x.function);
			let calls = wrapped.clone().unwrap_or_else(|| vec![&x.function]);
			let able: Vec<_> = calls.iter().filter_map(|c| validity::stable_weight(c)).collect();
			let quote = |w: Vec<simsdk::sp_weights::Weight>| {
				let sum = w.into_iter().fold(simsdk::sp_weights::Weight::zero(), |a, b| a.saturating_add(b));
				let f = validity::capacity_parts(sum, xt.len());
				Ok(json!([f.0.to_string(), f.1.to_string(), f.2.to_string()]))
			};
			if able.is_empty() {
				return one(Ok(Value::Null))
			}
			// what will be charged
			let mut l = vec![];
			if able.len() < calls.len() {
				l.push((Ok(Value::Null), None));
				l.push((quote(able.clone()), Some("quote-for-refused-batch")));
			} else {
				l.push((quote(able.clone()), None));
			}
			if wrapped.is_some() {
				let mut w = able;
				w.push(x.function.get_dispatch_info().weight);
				l.push((quote(w), Some(if l.len() > 1 { "quote-for-refused-batch" } else { "quote-counts-call-twice" })));
			}
			Some(l)
		},
		Q::Messages { .. } => unreachable!(),
		Q::Events { .. } => None,
		Q::Nonces { of, ready, future, .. } => {
			let mut next = v.nonce(of);
			while ready.contains(&next) {
				next += 1;
			}
			let last = future.iter().copied().max().unwrap_or(0);
			one(Ok(json!((next..last).filter(|n| !future.contains(n)).take(1000).collect::<Vec<u32>>())))
		},
	}
}
fn settings(bits: u16) -> Vec<&'static str> {
	[(storage::APPEND_ONLY, "AppendOnly"), (storage::SIGNED_ONLY, "SignatureRequired")].iter().filter(|s| bits & s.0 != 0).map(|s| s.1).collect()
}
const GOOD: &[&str] = &[
	r#"{"type":"record","name":"post","fields":[{"name":"text","type":"string"}]}"#,
	r#"{"type":"array","items":"long"}"#,
	r#"{"type": "fixed", "name": "key", "size": 32}"#,
	r#"{"type":"enum","name":"e","symbols":["A","B"]}"#,
];
fn message(schema: u16, v: &View, at: (u32, u16)) -> Option<Value> {
	let m = v.msg.map.get(&(at.0, schema, at.1))?;
	let mut o = json!({ "provider_msa_id": m.provider, "index": at.1, "block_number": at.0 });
	if v.sch.info.get(&schema)?.location == model::messages::IPFS {
		let (cid, len) = <(Vec<u8>, u32)>::decode(&mut &m.payload[..]).ok()?;
		o["cid"] = json!(simsdk::multibase::encode(simsdk::multibase::Base::Base32Lower, cid));
		o["payload_length"] = json!(len);
	} else {
		if let Some(id) = m.msa {
			o["msa_id"] = json!(id);
		}
		o["payload"] = json!(hex(&m.payload));
	}
	Some(o)
}
/// The messages of a schema from a place on, in order.
fn messages(v: &View, schema: u16, from: u32, index: u32, to: u32) -> Vec<(u32, u32)> {
	let mut l: Vec<(u32, u32)> = vec![];
	match v.sch.info.get(&schema) {
		Some(i) if i.location < 2 => (),
		_ => return l,
	}
	if from >= to {
		return l
	}
	// places within a block count the messages of this schema
	let (mut b, mut k) = (u32::MAX, 0);
	for ((n, s, _), _) in v.msg.map.range((from, 0, 0)..(to, 0, 0)) {
		if *s != schema {
			continue
		}
		if *n != b {
			(b, k) = (*n, 0);
		}
		if *n > from || k >= index {
			l.push((*n, k));
		}
		k += 1;
	}
	l
}
fn nth(v: &View, schema: u16, at: (u32, u32)) -> Option<Value> {
	let i = v.msg.map.range((at.0, schema, 0)..=(at.0, schema, u16::MAX)).nth(at.1 as usize)?.0 .2;
	message(schema, v, (at.0, i))
}
/// One page: whether it is acceptable, and where the next one starts.
fn page(v: &View, q: &Q, a: &Ans) -> Result<Option<(u32, u32)>, String> {
	let Q::Messages { schema, from, to, index, size } = q else { unreachable!() };
	let valid = *size > 0 && *size <= 10_000 && from < to && to - from <= 50_000;
	let rest = messages(v, *schema, *from, *index, *to);
	match a {
		Err(e) if valid && v.sch.info.contains_key(schema) => Err(format!("refused: {}", e)),
		Err(_) => Ok(None),
		Ok(_) if !valid => Err("an invalid range is answered".into()),
		Ok(_) if !v.sch.info.contains_key(schema) => Err("an unknown schema is answered".into()),
		Ok(x) => {
			let want: Vec<Value> = rest.iter().take(*size as usize).filter_map(|p| nth(v, *schema, *p)).collect();
			if x["content"] != Value::Array(want.clone()) {
				return Err(format!("content {} instead of {}", x["content"], Value::Array(want)))
			}
			let next = match (&x["next_block"], &x["next_index"]) {
				(Value::Null, Value::Null) => None,
				(b, i) => match (b.as_u64(), i.as_u64()) {
					(Some(b), Some(i)) => Some((b as u32, i as u32)),
					_ => return Err(format!("next page at {} {}", b, i)),
				},
			};
			if x["has_next"] != json!(next.is_some()) {
				return Err(format!("has_next is {}, the next page at {:?}", x["has_next"], next))
			}
			let left = rest.get(*size as usize..).unwrap_or(&[]);
			match next {
				None if left.is_empty() => Ok(None),
				None => Err(format!("{} messages are left, there is no next page", left.len())),
				Some((b, i)) if messages(v, *schema, b, i, *to) == left && b >= *from && b < *to => Ok(Some((b, i))),
				Some(p) => Err(format!("the next page is said to start at {:?}, left are {:?}", p, left.iter().take(3).collect::<Vec<_>>())),
			}
		},
	}
}
fn spaced(r: &mut Rng, s: String) -> String {
	match r.below(10) {
		0 => format!(" {}", s),
		1 => format!("{}\u{a0}", s),
		2 => format!("  {}\t", s),
		_ => s,
	}
}
fn spell(r: &mut Rng, s: &str) -> String {
	match r.below(4) {
		0 => s.to_uppercase(),
		1 => {
			let i = r.idx(s.chars().count().max(1));
			s.chars()
				.enumerate()
				.map(|(j, c)| if i == j { let l = refhandle::lookalikes(c); if l.is_empty() { c } else { *r.pick(&l) } } else { c })
				.collect()
		},
		_ => s.to_string(),
	}
}
fn draw(w: &World, n: usize, r: &mut Rng) -> Q {
	let head = w.nodes[n].head;
	let v = &w.views[&head];
	let number = w.blocks[&head].number;
	let msa = |r: &mut Rng| match r.below(12) {
		0 => r.below(4),
		1 => u64::MAX,
		_ => r.below(v.msa.max_id + 2),
	};
	let schema = |r: &mut Rng| match r.below(12) {
		0 => u16::MAX,
		_ => r.below(v.sch.max_id as u64 + 2) as u16,
	};
	let located = |r: &mut Rng, loc: &[u8]| {
		let l: Vec<u16> = v.sch.info.iter().filter(|x| loc.contains(&x.1.location)).map(|x| *x.0).collect();
		if l.is_empty() || r.pct(12) {
			schema(r)
		} else {
			*r.pick(&l)
		}
	};
	let pairs: Vec<(u64, u64)> = v.del.map.keys().copied().collect();
	let pair = |r: &mut Rng| if pairs.is_empty() || r.pct(10) { (msa(r), msa(r)) } else { *r.pick(&pairs) };
	let base = |r: &mut Rng| {
		let b = good_base(r, w.p.bases);
		let b = if r.pct(20) { spoil_base(r, b) } else { b.into_bytes() };
		let known: Vec<&Vec<u8>> = v.hand.seq.keys().collect();
		let s = if known.is_empty() || r.pct(40) { b } else { r.pick(&known).to_vec() };
		let s = String::from_utf8_lossy(&s).into_owned();
		spell(r, &s)
	};
	match r.below(if cfg!(feature = "noderpc") { 32 } else { 28 }) {
		28 | 29 => {
			let mut l: Vec<Hash> = w.nodes[n].known.keys().copied().collect();
			l.sort();
			Q::Events { at: if r.pct(6) { simsdk::sp_core::H256::repeat_byte(7) } else { *r.pick(&l) } }
		},
		30 | 31 => {
			let of = crate::users::acc(r.idx(crate::users::N));
			let k = v.nonce(&of);
			let (a, b) = (k.saturating_sub(r.below(3) as u32), k + r.below(5) as u32);
			let ready = if r.pct(30) { vec![] } else { (a..b).collect() };
			let mut future = vec![];
			let mut at = if r.pct(15) { k } else if r.pct(8) { k.saturating_sub(2) } else { b + 1 };
			for _ in 0..r.below(6) {
				future.push(at);
				at += match r.below(12) {
					0 => 0,
					1 => 1 + r.below(1500) as u32,
					2 => 990 + r.below(20) as u32,
					3..=6 => 1,
					_ => 1 + r.below(5) as u32,
				};
			}
			Q::Nonces { of, ready, future, seed: r.next() }
		},
		0..=2 => {
			let (d, p) = pair(r);
			let mut of = vec![d];
			for _ in 0..r.below(4) {
				of.push(pair(r).0);
			}
			let k = r.idx(of.len());
			of.swap(0, k);
			let perms: Vec<u16> = v.del.map.get(&(d, p)).map(|x| x.perms.keys().copied().collect()).unwrap_or_default();
			let revoked: Vec<u32> = v.del.map.get(&(d, p)).map(|x| x.perms.values().copied().chain([x.revoked_at]).filter(|x| *x > 0).collect()).unwrap_or_default();
			let at = match r.below(6) {
				0 => number + 1,
				1 => r.below(number as u64 + 3) as u32,
				2 | 3 if !revoked.is_empty() => (*r.pick(&revoked) + r.below(3) as u32).saturating_sub(1),
				_ => number,
			};
			let schema = if r.pct(35) { None } else if perms.is_empty() || r.pct(15) { Some(schema(r)) } else { Some(*r.pick(&perms)) };
			Q::Delegations { of, provider: p, at, schema }
		},
		3 => {
			let (of, provider) = pair(r);
			Q::Grants { of, provider }
		},
		4 => Q::AllGrants { of: pair(r).0 },
		5..=9 => {
			let schema = located(r, &[0, 1]);
			let l = messages(v, schema, 0, 0, u32::MAX);
			let b = |r: &mut Rng| if l.is_empty() || r.pct(15) { r.below(number as u64 + 3) as u32 } else { (r.pick(&l).0 + r.below(3) as u32).saturating_sub(1) };
			let (a, c) = (b(r), b(r));
			let (mut from, mut to) = (a.min(c), a.max(c) + r.below(2) as u32);
			if r.pct(20) {
				to = from + r.range(1, 400) as u32;
			}
			let mut size = if r.pct(60) { r.range(1, 4) as u32 } else { r.range(1, 40) as u32 };
			match r.below(16) {
				0 => size = 0,
				1 => size = *r.pick(&[10_000, 10_001, u32::MAX]),
				2 => std::mem::swap(&mut from, &mut to),
				3 => to = from,
				// a range of the greatest length is scanned block by block: only where the page is full at once
				4 if !l.is_empty() => {
					from = l[0].0;
					size = 1;
					to = from + *r.pick(&[50_000, 50_001]);
				},
				5 => to = u32::MAX,
				_ => (),
			}
			let index = match r.below(10) {
				0 => r.below(1 << 32) as u32,
				1 | 2 => r.below(4) as u32,
				_ => 0,
			};
			if index > 0 && to > from && to - from > 40_000 && to - from <= 50_000 {
				from = to - 400;
			}
			Q::Messages { schema, from, to, index, size }
		},
		10 => Q::Schema { id: schema(r) },
		11 => Q::Valid {
			model: match r.below(3) {
				0 => r.bytes(9),
				1 => br#"{"type":"nosuch","fields":[]}"#.to_vec(),
				_ => r.pick(GOOD).as_bytes().to_vec(),
			},
		},
		12 | 13 => {
			let l: Vec<&(Vec<u8>, Vec<u8>)> = v.sch.names.keys().collect();
			let mut name = match l.is_empty() {
				true => "space.thing".to_string(),
				false => {
					let (a, b) = r.pick(&l);
					let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
					if r.pct(40) {
						a.into_owned()
					} else {
						format!("{}.{}", a, b)
					}
				},
			};
			match r.below(10) {
				0 => name = name.to_uppercase(),
				1 => name = format!(" {} ", name),
				2 => name.push('.'),
				3 => name.push_str("x"),
				4 => name = name.repeat(4),
				5 => name.push('\u{e9}'),
				6 => name = String::new(),
				_ => (),
			}
			Q::Versions { name }
		},
		14 | 15 => {
			let l: Vec<(u64, u16)> = v.stor.pages.keys().map(|k| (k.0, k.1)).collect();
			let (msa, schema) = if l.is_empty() || r.pct(25) { (msa(r), located(r, &[3])) } else { *r.pick(&l) };
			Q::Pages { msa, schema }
		},
		16 | 17 => {
			let l: Vec<(u64, u16)> = v.stor.items.keys().copied().collect();
			let (msa, schema) = if l.is_empty() || r.pct(25) { (msa(r), located(r, &[2])) } else { *r.pick(&l) };
			Q::Items { msa, schema }
		},
		18 => {
			let l: Vec<u64> = v.hand.name.keys().copied().collect();
			Q::Handle { msa: if l.is_empty() || r.pct(25) { msa(r) } else { *r.pick(&l) } }
		},
		19 | 20 => Q::Suffixes { base: { let b = base(r); spaced(r, b) }, count: *r.pick(&[None, Some(0), Some(1), Some(3), Some(20), Some(89), Some(90), Some(100), Some(101), Some(u16::MAX)]) },
		21 | 22 => {
			let l: Vec<String> = v.hand.owner.keys().map(|(b, s)| format!("{}.{}", String::from_utf8_lossy(b), s)).collect();
			let m: Vec<String> = v.hand.name.values().map(|x| String::from_utf8_lossy(&x.0).into_owned()).collect();
			let display = match r.below(8) {
				0 => format!("{}.{}", base(r), r.range(8, 101)),
				1 => base(r),
				2 => format!("{}.{}", base(r), 65_536),
				3..=5 if !m.is_empty() => r.pick(&m).clone(),
				_ if !l.is_empty() => r.pick(&l).clone(),
				_ => "nobody.33".into(),
			};
			let display = match display.rsplit_once('.') {
				Some((b, s)) => {
					let b = spell(r, b);
					format!("{}.{}", spaced(r, b), s)
				},
				None => display,
			};
			Q::Owner { display }
		},
		23 => Q::Validate { base: { let b = base(r); spaced(r, b) } },
		_ => {
			let mut xt = if w.sent.is_empty() || r.pct(8) { r.bytes(20) } else { r.pick(&w.sent).encode() };
			let wrap: Vec<&UncheckedExtrinsic> = w.sent.iter().filter(|x| validity::capacity_calls(&x.function).is_some()).collect();
			if !wrap.is_empty() && r.pct(60) {
				xt = r.pick(&wrap).encode();
			}
			if r.pct(4) {
				xt.truncate(xt.len() / 2);
			}
			let at = match r.below(4) {
				0 => {
					let mut l: Vec<Hash> = w.nodes[n].known.keys().copied().collect();
					l.sort();
					Some(*r.pick(&l))
				},
				1 => Some(simsdk::sp_core::H256::repeat_byte(r.below(256) as u8)),
				_ => None,
			};
			Q::Fee { xt, at }
		},
	}
}
/// One query, with what happens on the node meanwhile.
pub fn op(w: &mut World, n: usize, seed: u64) {
	let mut r = Rng::new(seed);
	if !w.nodes[n].up {
		return
	}
	let mut q = draw(w, n, &mut r);
	let name = q.name();
	w.cov.add(format!("query: {}", name), 1);
	let head = w.nodes[n].head;
	let mut heads = vec![(0, head, w.blocks[&head].number)];
	let mut until = None;
	if r.pct(40) {
		// the node moves to blocks it has, perhaps on another fork
		let mut l: Vec<(u32, Hash)> = w.nodes[n].known.keys().map(|h| (w.blocks[h].number, *h)).filter(|x| x.0 + 12 > heads[0].2 && x.0 > 4).collect();
		l.sort();
		let mut t = 0;
		for _ in 0..r.range(1, 3) {
			if l.is_empty() {
				break
			}
			t += r.range(1, 4) as u32;
			let (k, h) = *r.pick(&l);
			heads.push((t, h, k));
			if w.ancestor(h, heads[heads.len() - 2].2).map_or(true, |a| a != heads[heads.len() - 2].1) {
				w.cov.add("fault: fork switched during a query", 1);
			} else {
				w.cov.add("fault: block imported during a query", 1);
			}
		}
	}
	if r.pct(12) {
		until = Some(r.below(6) as u32);
		w.cov.add("fault: states lost during a query", 1);
	}
	let mut known: HashMap<Hash, Arc<simsdk::storage::State>> = heads.iter().map(|h| (h.1, w.nodes[n].known[&h.1].clone())).collect();
	if let Q::Fee { at: Some(h), .. } | Q::Events { at: h } = &q {
		if let Some(s) = w.nodes[n].known.get(h) {
			known.insert(*h, s.clone());
		}
	}
	let source = Arc::new(Source { known, until, ..Default::default() });
	let c = Arc::new(Client { heads: heads.clone(), source: source.clone() });
	w.note(|| format!("node {} is asked {:?}", n, q).chars().take(300).collect());
	let a = match guarded(|| ask(c, &q)) {
		Ok(a) => a,
		Err(e) => return w.viol("C24", "panic", format!("{:?}: {}", q, e)),
	};
	let calls = source.calls.load(Relaxed);
	if source.missed.load(Relaxed) && a.is_err() {
		w.cov.add("query: refused for want of the state", 1);
		return
	}
	// a head that was replaced before anything was asked never counted; one that came with the last call may not
	let times: Vec<Hash> = (0..heads.len()).filter(|i| heads[*i].0 < calls.max(1)).map(|i| heads[i].1).collect();
	let mut why = vec![];
	let mut hit = false;
	if let Q::Events { at } = &q {
		// what the block left behind, in order
		let want = w.nodes[n].known.get(at).map(|s| {
			let ev: Vec<simsdk::frame_system::EventRecord<frequency_runtime::RuntimeEvent, Hash>> = value(s, &prefix("System", "Events")).map(|b| decode(&b)).unwrap_or_default();
			ev.into_iter()
				.map(|e| {
					let b = e.event.encode();
					let phase = if let simsdk::frame_system::Phase::ApplyExtrinsic(i) = e.phase { json!(i) } else { Value::Null };
					json!({ "phase": phase, "pallet": b[0], "event": b[1], "data": hex(&b[2..]) })
				})
				.collect::<Vec<_>>()
		});
		if a.as_ref().ok() != want.clone().map(Value::Array).as_ref() {
			w.viol("C24", name, format!("{:?} answered {:?} instead of {:?}", q, a, want).chars().take(3000).collect());
		}
		return
	}
	for h in &times {
		let v = w.views[h].clone();
		let k = w.blocks[h].number;
		if let Q::Messages { .. } = q {
			match page(&v, &q, &a) {
				Ok(_) => hit = true,
				Err(e) => why.push(format!("block {}: {}", k, e)),
			}
		} else if let Some(l) = expected(&v, k, &q) {
			let same = |e: &Ans| match (e, &a) {
				(Ok(x), Ok(y)) => x == y,
				(Err(_), Err(_)) => true,
				_ => false,
			};
			// the plain answer first
			match l.iter().find(|e| same(&e.0)) {
				Some((_, Some(k))) => {
					w.viol("C24", k, format!("{:?}: {:?}, expected {:?}", q, a, l[0].0));
					hit = true;
				},
				Some(_) => hit = true,
				None => why.push(format!("block {} says {:?}", k, l.iter().map(|x| &x.0).collect::<Vec<_>>())),
			}
		} else {
			hit = true;
		}
		if hit {
			break
		}
	}
	if !hit {
		let lost = if source.missed.load(Relaxed) { " (the state was lost meanwhile)" } else { "" };
		return w.viol("C24", name, format!("{:?} answered {:?}{}; {}", q, a, lost, why.join("; ")).chars().take(3000).collect())
	}
	// the pages together
	if let (Q::Messages { .. }, 1, None) = (&q, heads.len(), until) {
		let v = w.views[&head].clone();
		let mut a = a;
		let (mut seen, mut turns) = (0usize, 0);
		let Q::Messages { schema, from, to, index, .. } = q.clone() else { unreachable!() };
		let all = messages(&v, schema, from, index, to).len();
		loop {
			let next = match page(&v, &q, &a) {
				Ok(x) => x,
				Err(e) => return w.viol("C24", "pages", format!("{:?}: {}", q, e)),
			};
			if let Ok(x) = &a {
				seen += x["content"].as_array().map(|c| c.len()).unwrap_or(0);
			}
			let Some((b, i)) = next else { break };
			turns += 1;
			if turns > all + 5 {
				return w.viol("C24", "pages", format!("{:?}: {} pages for {} messages, and no end", q, turns, all))
			}
			if let Q::Messages { from, index, .. } = &mut q {
				(*from, *index) = (b, i);
			}
			let c = Arc::new(Client { heads: heads.clone(), source: source.clone() });
			a = match guarded(|| ask(c, &q)) {
				Ok(a) => a,
				Err(e) => return w.viol("C24", "panic", format!("{:?}: {}", q, e)),
			};
		}
		if a.is_ok() && seen != all {
			w.viol("C24", "pages", format!("{:?}: {} of {} messages on all pages", q, seen, all));
		}
		w.cov.add("query: whole ranges paged through", 1);
	}
}
/// Once everything is quiet every node answers a few queries.
pub fn finish(w: &mut World) {
	if w.p.ops[crate::world::QUERY as usize] == 0 {
		return
	}
	for n in 0..w.nodes.len() {
		for k in 0..4 {
			op(w, n, Rng::new(w.step as u64 * 31 + n as u64 * 7 + k).next());
		}
	}
}
