//! `frame_support::storage::types`
use super::hash::*;
use crate::codec::*;
use crate::frame_support::traits::{Get, GetDefault, StorageInstance};
use crate::storage as host;
use std::marker::PhantomData;

pub struct OptionQuery;
pub struct ValueQuery;
pub struct ResultQuery<E>(PhantomData<E>);

pub trait QueryKindTrait<Value, OnEmpty> {
	type Query;
	fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
	fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
}
impl<V, E: Get<Option<V>>> QueryKindTrait<V, E> for OptionQuery {
	type Query = Option<V>;
	fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
		v.or_else(E::get)
	}
	fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
		v
	}
}
impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery {
	type Query = V;
	fn from_optional_value_to_query(v: Option<V>) -> V {
		v.unwrap_or_else(E::get)
	}
	fn from_query_to_optional_value(v: V) -> Option<V> {
		Some(v)
	}
}

thread_local! {
	static PREFIX: std::cell::RefCell<std::collections::HashMap<(&'static str, &'static str), [u8; 32]>> = Default::default();
}
/// twox128(pallet) ++ twox128(storage), cached.
pub fn storage_prefix(pallet: &'static str, storage: &'static str) -> [u8; 32] {
	PREFIX.with(|p| {
		*p.borrow_mut().entry((pallet, storage)).or_insert_with(|| {
			let mut r = [0u8; 32];
			r[..16].copy_from_slice(&crate::hashing::twox_128(pallet.as_bytes()));
			r[16..].copy_from_slice(&crate::hashing::twox_128(storage.as_bytes()));
			r
		})
	})
}
fn pre<P: StorageInstance>() -> Vec<u8> {
	storage_prefix(P::pallet_prefix(), P::STORAGE_PREFIX).to_vec()
}
/// An undecodable value reads as absent, as in the real implementation (which logs an error).
fn read<V: Decode>(k: &[u8]) -> Option<V> {
	host::get(k).and_then(|v| V::decode(&mut &v[..]).ok())
}
fn write<V: Encode + ?Sized>(k: &[u8], v: &V) {
	host::set(k, &v.encode())
}
fn raw_append(k: &[u8], item: &impl Encode) {
	let cur = host::get(k).unwrap_or_default();
	let (n, off) = {
		let mut s = &cur[..];
		match Compact::<u32>::decode(&mut s) {
			Ok(c) => (c.0, cur.len() - s.len()),
			Err(_) => (0, cur.len()),
		}
	};
	let mut v = Compact(n + 1).encode();
	v.extend_from_slice(&cur[off.min(cur.len())..]);
	item.encode_to(&mut v);
	host::set(k, &v)
}

/// Result of removing many keys.
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
impl From<host::ClearResult> for MultiRemovalResults {
	fn from(r: host::ClearResult) -> Self {
		MultiRemovalResults { maybe_cursor: if r.more { Some(vec![]) } else { None }, backend: r.backend, unique: r.unique, loops: r.loops }
	}
}

pub trait ValueShape {
	type Query;
}
pub trait MapShape {
	type Key: Encode;
	type Query;
}
pub trait DoubleMapShape {
	type Key1: Encode;
	type Key2: Encode;
	type Query;
}
pub trait NMapShape {
	type KeyGen: KeyGenerator;
	type Query;
}

// ------------------------------------------------------------------------------------------------ StorageValue
pub struct StorageValue<P, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, V, Q, E)>);
impl<P, V, Q: QueryKindTrait<V, E>, E> ValueShape for StorageValue<P, V, Q, E> {
	type Query = Q::Query;
}
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
	pub fn hashed_key() -> [u8; 32] {
		storage_prefix(P::pallet_prefix(), P::STORAGE_PREFIX)
	}
	pub fn exists() -> bool {
		host::exists(&Self::hashed_key())
	}
	pub fn get() -> Q::Query {
		Q::from_optional_value_to_query(read(&Self::hashed_key()))
	}
	pub fn try_get() -> Result<V, ()> {
		read(&Self::hashed_key()).ok_or(())
	}
	pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
		let k = Self::hashed_key();
		let old = match host::get(&k) {
			Some(v) => Some(O::decode(&mut &v[..]).map_err(|_| ())?),
			None => None,
		};
		let new = f(old);
		match &new {
			Some(v) => write(&k, v),
			None => host::clear(&k),
		}
		Ok(new)
	}
	pub fn put<A: EncodeLike<V>>(v: A) {
		write(&Self::hashed_key(), &v)
	}
	pub fn set(v: Q::Query) {
		match Q::from_query_to_optional_value(v) {
			Some(v) => write(&Self::hashed_key(), &v),
			None => Self::kill(),
		}
	}
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
		let mut v = Self::get();
		let r = f(&mut v);
		Self::set(v);
		r
	}
	pub fn mutate_extant<R: Default, F: FnOnce(&mut V) -> R>(f: F) -> R {
		match Self::try_get() {
			Ok(mut v) => {
				let r = f(&mut v);
				write(&Self::hashed_key(), &v);
				r
			},
			Err(_) => R::default(),
		}
	}
	pub fn try_mutate<R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(f: F) -> Result<R, X> {
		let mut v = Self::get();
		let r = f(&mut v);
		if r.is_ok() {
			Self::set(v)
		}
		r
	}
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
		Self::try_mutate_exists(|v| Ok::<R, ()>(f(v))).unwrap()
	}
	pub fn try_mutate_exists<R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(f: F) -> Result<R, X> {
		let k = Self::hashed_key();
		let mut v: Option<V> = read(&k);
		let r = f(&mut v);
		if r.is_ok() {
			match v {
				Some(v) => write(&k, &v),
				None => host::clear(&k),
			}
		}
		r
	}
	pub fn take() -> Q::Query {
		let v = Self::get();
		Self::kill();
		v
	}
	pub fn kill() {
		host::clear(&Self::hashed_key())
	}
	pub fn append<I: Encode>(item: I) {
		raw_append(&Self::hashed_key(), &item)
	}
	pub fn decode_len() -> Option<usize> {
		host::get(&Self::hashed_key()).and_then(|v| Compact::<u32>::decode(&mut &v[..]).ok()).map(|x| x.0 as usize)
	}
}
/// `try_append` on bounded vectors.
pub trait TryAppendable {
	type Item: Encode;
	fn bound() -> usize;
}
impl<P: StorageInstance, V: FullCodec + TryAppendable, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
	pub fn try_append<I: EncodeLike<V::Item>>(item: I) -> Result<(), ()> {
		if Self::decode_len().unwrap_or(0) < V::bound() {
			raw_append(&Self::hashed_key(), &item);
			Ok(())
		} else {
			Err(())
		}
	}
}

// ------------------------------------------------------------------------------------------------ shared map code
/// Iterates over keys under a prefix; the next key is looked up lazily, so removal during iteration is safe.
pub struct PrefixIterator<T> {
	prefix: Vec<u8>,
	previous: Vec<u8>,
	drain: bool,
	dec: Box<dyn Fn(&[u8], &[u8]) -> Result<T, Error>>,
}
impl<T> PrefixIterator<T> {
	fn new(prefix: Vec<u8>, dec: impl Fn(&[u8], &[u8]) -> Result<T, Error> + 'static) -> Self {
		PrefixIterator { previous: prefix.clone(), prefix, drain: false, dec: Box::new(dec) }
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.previous
	}
	pub fn prefix(&self) -> &[u8] {
		&self.prefix
	}
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = host::next_key(&self.previous)?;
			if !k.starts_with(&self.prefix) {
				return None
			}
			self.previous = k.clone();
			let v = host::get(&k)?;
			if self.drain {
				host::clear(&k);
			}
			match (self.dec)(&k[self.prefix.len()..], &v) {
				Ok(x) => return Some(x),
				Err(_) => continue,
			}
		}
	}
}
pub type KeyPrefixIterator<T> = PrefixIterator<T>;

macro_rules! map_ops {
	($key:expr, ($($kv:ident : $kt:ty),*), [$($gen:tt)*], $V:ty, $Q:ty, $E:ty) => {
		pub fn hashed_key_for<$($gen)*>($($kv: $kt),*) -> Vec<u8> { $key }
		pub fn contains_key<$($gen)*>($($kv: $kt),*) -> bool { host::exists(&$key) }
		pub fn get<$($gen)*>($($kv: $kt),*) -> <$Q as QueryKindTrait<$V, $E>>::Query { <$Q>::from_optional_value_to_query(read(&$key)) }
		pub fn try_get<$($gen)*>($($kv: $kt),*) -> Result<$V, ()> { read(&$key).ok_or(()) }
		pub fn set<$($gen)*>($($kv: $kt,)* q: <$Q as QueryKindTrait<$V, $E>>::Query) {
			let k = $key;
			match <$Q>::from_query_to_optional_value(q) { Some(v) => write(&k, &v), None => host::clear(&k) }
		}
		pub fn insert<VArg: EncodeLike<$V>, $($gen)*>($($kv: $kt,)* v: VArg) { write(&$key, &v) }
		pub fn remove<$($gen)*>($($kv: $kt),*) { host::clear(&$key) }
		pub fn take<$($gen)*>($($kv: $kt),*) -> <$Q as QueryKindTrait<$V, $E>>::Query {
			let k = $key;
			let v = read(&k);
			host::clear(&k);
			<$Q>::from_optional_value_to_query(v)
		}
		pub fn mutate<RR, FF: FnOnce(&mut <$Q as QueryKindTrait<$V, $E>>::Query) -> RR, $($gen)*>($($kv: $kt,)* f: FF) -> RR {
			let k = $key;
			let mut q = <$Q>::from_optional_value_to_query(read(&k));
			let r = f(&mut q);
			match <$Q>::from_query_to_optional_value(q) { Some(v) => write(&k, &v), None => host::clear(&k) }
			r
		}
		pub fn try_mutate<RR, XX, FF: FnOnce(&mut <$Q as QueryKindTrait<$V, $E>>::Query) -> Result<RR, XX>, $($gen)*>($($kv: $kt,)* f: FF) -> Result<RR, XX> {
			let k = $key;
			let mut q = <$Q>::from_optional_value_to_query(read(&k));
			let r = f(&mut q);
			if r.is_ok() { match <$Q>::from_query_to_optional_value(q) { Some(v) => write(&k, &v), None => host::clear(&k) } }
			r
		}
		pub fn mutate_exists<RR, FF: FnOnce(&mut Option<$V>) -> RR, $($gen)*>($($kv: $kt,)* f: FF) -> RR {
			let k = $key;
			let mut q: Option<$V> = read(&k);
			let r = f(&mut q);
			match q { Some(v) => write(&k, &v), None => host::clear(&k) }
			r
		}
		pub fn mutate_extant<RR: Default, FF: FnOnce(&mut $V) -> RR, $($gen)*>($($kv: $kt,)* f: FF) -> RR {
			let k = $key;
			match read::<$V>(&k) { Some(mut v) => { let r = f(&mut v); write(&k, &v); r }, None => Default::default() }
		}
		pub fn try_mutate_exists<RR, XX, FF: FnOnce(&mut Option<$V>) -> Result<RR, XX>, $($gen)*>($($kv: $kt,)* f: FF) -> Result<RR, XX> {
			let k = $key;
			let mut q: Option<$V> = read(&k);
			let r = f(&mut q);
			if r.is_ok() { match q { Some(v) => write(&k, &v), None => host::clear(&k) } }
			r
		}
		pub fn append<II: Encode, $($gen)*>($($kv: $kt,)* item: II) { raw_append(&$key, &item) }
		pub fn decode_len<$($gen)*>($($kv: $kt),*) -> Option<usize> {
			host::get(&$key).and_then(|v| Compact::<u32>::decode(&mut &v[..]).ok()).map(|x| x.0 as usize)
		}
		pub fn clear(limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults { host::clear_prefix(&pre::<P>(), Some(limit)).into() }
		pub fn remove_all(limit: Option<u32>) -> MultiRemovalResults { host::clear_prefix(&pre::<P>(), limit).into() }
		pub fn iter_values() -> PrefixIterator<$V> { PrefixIterator::new(pre::<P>(), |_, mut v| <$V>::decode(&mut v)) }
		pub fn prefix_hash() -> [u8; 32] { storage_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
		pub fn final_prefix() -> [u8; 32] { storage_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
		pub fn translate_values<OldV: Decode, FF: FnMut(OldV) -> Option<$V>>(mut f: FF) {
			let p = pre::<P>();
			let mut prev = p.clone();
			while let Some(k) = host::next_key(&prev).filter(|n| n.starts_with(&p)) {
				prev = k.clone();
				if let Some(Ok(o)) = host::get(&k).map(|v| OldV::decode(&mut &v[..])) {
					match f(o) { Some(n) => write(&k, &n), None => host::clear(&k) }
				}
			}
		}
	};
}
// `map_ops!` generates methods whose generic lists are `<Own.., Key args..>`; callers never spell them out.

// ------------------------------------------------------------------------------------------------ StorageMap
pub struct StorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, E, M)>);
impl<P, H, K: Encode, V, Q: QueryKindTrait<V, E>, E, M> MapShape for StorageMap<P, H, K, V, Q, E, M> {
	type Key = K;
	type Query = Q::Query;
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	fn key_of(k: &impl Encode) -> Vec<u8> {
		let mut v = pre::<P>();
		v.extend_from_slice(k.using_encoded(H::hash).as_ref());
		v
	}
	map_ops!(Self::key_of(&k), (k: KArg), [KArg: EncodeLike<K>], V, Q, E);
	pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
		let (ka, kb) = (Self::key_of(&a), Self::key_of(&b));
		let (va, vb) = (host::get(&ka), host::get(&kb));
		match vb {
			Some(v) => host::set(&ka, &v),
			None => host::clear(&ka),
		}
		match va {
			Some(v) => host::set(&kb, &v),
			None => host::clear(&kb),
		}
	}
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M>
where
	K: 'static,
	V: 'static,
{
	pub fn iter() -> PrefixIterator<(K, V)> {
		PrefixIterator::new(pre::<P>(), |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?)))
	}
	pub fn iter_from(starting: Vec<u8>) -> PrefixIterator<(K, V)> {
		let mut i = Self::iter();
		i.previous = starting;
		i
	}
	pub fn iter_keys() -> KeyPrefixIterator<K> {
		PrefixIterator::new(pre::<P>(), |k, _| K::decode(&mut H::reverse(k)))
	}
	pub fn iter_keys_from(starting: Vec<u8>) -> KeyPrefixIterator<K> {
		let mut i = Self::iter_keys();
		i.previous = starting;
		i
	}
	pub fn drain() -> PrefixIterator<(K, V)> {
		Self::iter().drain()
	}
	pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
		let p = pre::<P>();
		let mut prev = p.clone();
		while let Some(k) = host::next_key(&prev).filter(|n| n.starts_with(&p)) {
			prev = k.clone();
			let (Some(Ok(o)), Ok(key)) = (host::get(&k).map(|v| O::decode(&mut &v[..])), K::decode(&mut H::reverse(&k[p.len()..]))) else { continue };
			match f(key, o) {
				Some(n) => write(&k, &n),
				None => host::clear(&k),
			}
		}
	}
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec + TryAppendable, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	pub fn try_append<KA: EncodeLike<K> + Clone, I: EncodeLike<V::Item>>(k: KA, item: I) -> Result<(), ()> {
		let key = Self::key_of(&k);
		let n = host::get(&key).and_then(|v| Compact::<u32>::decode(&mut &v[..]).ok()).map(|x| x.0 as usize).unwrap_or(0);
		if n < V::bound() {
			raw_append(&key, &item);
			Ok(())
		} else {
			Err(())
		}
	}
}

// ------------------------------------------------------------------------------------------------ CountedStorageMap
/// A `StorageMap` with a counter under `CounterFor<Prefix>`.
pub struct CountedStorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, E, M)>);
impl<P, H, K: Encode, V, Q: QueryKindTrait<V, E>, E, M> MapShape for CountedStorageMap<P, H, K, V, Q, E, M> {
	type Key = K;
	type Query = Q::Query;
}

impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	fn counter() -> Vec<u8> {
		let n: &'static str = Box::leak(format!("CounterFor{}", P::STORAGE_PREFIX).into_boxed_str());
		storage_prefix(P::pallet_prefix(), n).to_vec()
	}
	pub fn count() -> u32 {
		read(&Self::counter()).unwrap_or(0)
	}
	fn counted<R>(k: &impl EncodeLike<K>, f: impl FnOnce() -> R) -> R {
		let key = StorageMap::<P, H, K, V, Q, E, M>::key_of(k);
		let before = host::exists(&key);
		let r = f();
		match (before, host::exists(&key)) {
			(false, true) => write(&Self::counter(), &(Self::count() + 1)),
			(true, false) => write(&Self::counter(), &Self::count().saturating_sub(1)),
			_ => (),
		}
		r
	}
	pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> {
		StorageMap::<P, H, K, V, Q, E, M>::key_of(&k)
	}
	pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
		StorageMap::<P, H, K, V, Q, E, M>::contains_key(k)
	}
	pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
		StorageMap::<P, H, K, V, Q, E, M>::get(k)
	}
	pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
		StorageMap::<P, H, K, V, Q, E, M>::try_get(k)
	}
	pub fn set<A: EncodeLike<K> + Clone>(k: A, q: Q::Query) {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::set(k, q))
	}
	pub fn insert<A: EncodeLike<K> + Clone, B: EncodeLike<V>>(k: A, v: B) {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::insert(k, v))
	}
	pub fn remove<A: EncodeLike<K> + Clone>(k: A) {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::remove(k))
	}
	pub fn take<A: EncodeLike<K> + Clone>(k: A) -> Q::Query {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::take(k))
	}
	pub fn mutate<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::mutate(k, f))
	}
	pub fn try_mutate<A: EncodeLike<K> + Clone, R, X, F: FnOnce(&mut Q::Query) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::try_mutate(k, f))
	}
	pub fn mutate_exists<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::mutate_exists(k, f))
	}
	pub fn try_mutate_exists<A: EncodeLike<K> + Clone, R, X, F: FnOnce(&mut Option<V>) -> Result<R, X>>(k: A, f: F) -> Result<R, X> {
		Self::counted(&k.clone(), || StorageMap::<P, H, K, V, Q, E, M>::try_mutate_exists(k, f))
	}
	pub fn iter_values() -> PrefixIterator<V> {
		StorageMap::<P, H, K, V, Q, E, M>::iter_values()
	}
	pub fn remove_all() {
		let _ = StorageMap::<P, H, K, V, Q, E, M>::remove_all(None);
		write(&Self::counter(), &0u32)
	}
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	pub fn iter() -> PrefixIterator<(K, V)> {
		StorageMap::<P, H, K, V, Q, E, M>::iter()
	}
	pub fn iter_keys() -> KeyPrefixIterator<K> {
		StorageMap::<P, H, K, V, Q, E, M>::iter_keys()
	}
	pub fn drain() -> PrefixIterator<(K, V)> {
		write(&Self::counter(), &0u32);
		StorageMap::<P, H, K, V, Q, E, M>::drain()
	}
}

// ------------------------------------------------------------------------------------------------ StorageDoubleMap
pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, E, M)>);
impl<P, H1, K1: Encode, H2, K2: Encode, V, Q: QueryKindTrait<V, E>, E, M> DoubleMapShape for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	type Key1 = K1;
	type Key2 = K2;
	type Query = Q::Query;
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
{
	fn key1_of(k: &impl Encode) -> Vec<u8> {
		let mut v = pre::<P>();
		v.extend_from_slice(k.using_encoded(H1::hash).as_ref());
		v
	}
	fn key_of(a: &impl Encode, b: &impl Encode) -> Vec<u8> {
		let mut v = Self::key1_of(a);
		v.extend_from_slice(b.using_encoded(H2::hash).as_ref());
		v
	}
	map_ops!(Self::key_of(&k1, &k2), (k1: KArg1, k2: KArg2), [KArg1: EncodeLike<K1>, KArg2: EncodeLike<K2>], V, Q, E);
	pub fn swap<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<K1>, D: EncodeLike<K2>>(a: A, b: B, c: C, d: D) {
		let (x, y) = (Self::key_of(&a, &b), Self::key_of(&c, &d));
		let (u, v) = (host::get(&x), host::get(&y));
		for (k, w) in [(x, v), (y, u)] {
			match w {
				Some(w) => host::set(&k, &w),
				None => host::clear(&k),
			}
		}
	}
	pub fn clear_prefix<A: EncodeLike<K1>>(k1: A, limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults {
		host::clear_prefix(&Self::key1_of(&k1), Some(limit)).into()
	}
	pub fn remove_prefix<A: EncodeLike<K1>>(k1: A, limit: Option<u32>) -> MultiRemovalResults {
		host::clear_prefix(&Self::key1_of(&k1), limit).into()
	}
	pub fn contains_prefix<A: EncodeLike<K1>>(k1: A) -> bool {
		let p = Self::key1_of(&k1);
		host::next_key(&p).map_or(false, |k| k.starts_with(&p))
	}
	pub fn iter_prefix_values<A: EncodeLike<K1>>(k1: A) -> PrefixIterator<V> {
		PrefixIterator::new(Self::key1_of(&k1), |_, mut v| V::decode(&mut v))
	}
}
impl<
		P: StorageInstance,
		H1: ReversibleStorageHasher,
		K1: FullCodec + 'static,
		H2: ReversibleStorageHasher,
		K2: FullCodec + 'static,
		V: FullCodec + 'static,
		Q: QueryKindTrait<V, E>,
		E,
		M,
	> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
{
	fn split(k: &[u8]) -> Result<(K1, K2), Error> {
		let mut a = H1::reverse(k);
		let k1 = K1::decode(&mut a)?;
		let mut b = H2::reverse(a);
		Ok((k1, K2::decode(&mut b)?))
	}
	pub fn iter() -> PrefixIterator<(K1, K2, V)> {
		PrefixIterator::new(pre::<P>(), |k, mut v| {
			let (a, b) = Self::split(k)?;
			Ok((a, b, V::decode(&mut v)?))
		})
	}
	pub fn iter_keys() -> KeyPrefixIterator<(K1, K2)> {
		PrefixIterator::new(pre::<P>(), |k, _| Self::split(k))
	}
	pub fn drain() -> PrefixIterator<(K1, K2, V)> {
		Self::iter().drain()
	}
	pub fn iter_prefix(k1: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
		PrefixIterator::new(Self::key1_of(&k1), |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?)))
	}
	pub fn iter_key_prefix(k1: impl EncodeLike<K1>) -> KeyPrefixIterator<K2> {
		PrefixIterator::new(Self::key1_of(&k1), |k, _| K2::decode(&mut H2::reverse(k)))
	}
	pub fn drain_prefix(k1: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
		Self::iter_prefix(k1).drain()
	}
	pub fn iter_from(starting: Vec<u8>) -> PrefixIterator<(K1, K2, V)> {
		let mut i = Self::iter();
		i.previous = starting;
		i
	}
	pub fn iter_prefix_from(k1: impl EncodeLike<K1>, starting: Vec<u8>) -> PrefixIterator<(K2, V)> {
		let mut i = Self::iter_prefix(k1);
		i.previous = starting;
		i
	}
	pub fn iter_key_prefix_from(k1: impl EncodeLike<K1>, starting: Vec<u8>) -> KeyPrefixIterator<K2> {
		let mut i = Self::iter_key_prefix(k1);
		i.previous = starting;
		i
	}
	pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
		let p = pre::<P>();
		let mut prev = p.clone();
		while let Some(k) = host::next_key(&prev).filter(|n| n.starts_with(&p)) {
			prev = k.clone();
			let (Some(Ok(o)), Ok((a, b))) = (host::get(&k).map(|v| O::decode(&mut &v[..])), Self::split(&k[p.len()..])) else { continue };
			match f(a, b, o) {
				Some(n) => write(&k, &n),
				None => host::clear(&k),
			}
		}
	}
}

// ------------------------------------------------------------------------------------------------ StorageNMap
/// One hashed key of an n-map.
pub struct Key<H, K>(PhantomData<(H, K)>);
pub type NMapKey<H, K> = Key<H, K>;

pub trait KeyGenerator {
	type Key: Encode;
	type KArg: Encode;
	fn final_key(parts: Vec<Vec<u8>>) -> Vec<u8>;
}
pub trait ReversibleKeyGenerator: KeyGenerator {
	fn decode_final_key(k: &[u8]) -> Result<Self::Key, Error>;
}
/// `HasKeyPrefix`: decode what remains after a partial key.
pub trait HasKeyPrefix<P>: KeyGenerator {
	type Suffix;
	fn partial_key(parts: Vec<Vec<u8>>) -> Vec<u8> {
		Self::final_key(parts)
	}
}
pub trait HasReversibleKeyPrefix<P>: HasKeyPrefix<P> {
	fn decode_partial_key(k: &[u8]) -> Result<Self::Suffix, Error>;
}
pub trait EncodeLikeTuple<T> {}
pub trait TupleToEncodedIter {
	fn to_encoded_iter(&self) -> Vec<Vec<u8>>;
}

impl<H: StorageHasher, K: FullCodec> KeyGenerator for Key<H, K> {
	type Key = K;
	type KArg = (K,);
	fn final_key(p: Vec<Vec<u8>>) -> Vec<u8> {
		p.iter().flat_map(|x| H::hash(x).as_ref().to_vec()).collect()
	}
}
impl<H: ReversibleStorageHasher, K: FullCodec> ReversibleKeyGenerator for Key<H, K> {
	fn decode_final_key(k: &[u8]) -> Result<K, Error> {
		K::decode(&mut H::reverse(k))
	}
}
macro_rules! nmap_tuples {
	($( ($($h:ident $k:ident $a:ident $i:tt),*) )*) => { $(
		impl<$($h: StorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) {
			type Key = ($($k,)*);
			type KArg = ($($k,)*);
			fn final_key(p: Vec<Vec<u8>>) -> Vec<u8> {
				let mut v = vec![];
				$( if let Some(x) = p.get($i) { v.extend_from_slice($h::hash(x).as_ref()); } )*
				v
			}
		}
		impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> ReversibleKeyGenerator for ($(Key<$h, $k>,)*) {
			#[allow(unused_assignments)]
			fn decode_final_key(k: &[u8]) -> Result<Self::Key, Error> {
				let mut rest = k;
				Ok(($( { let mut b = $h::reverse(rest); let x = $k::decode(&mut b)?; rest = b; x }, )*))
			}
		}
		impl<$($k: Encode, $a: EncodeLike<$k>),*> EncodeLikeTuple<($($k,)*)> for ($($a,)*) {}
		impl<$($k: Encode),*> TupleToEncodedIter for ($($k,)*) {
			fn to_encoded_iter(&self) -> Vec<Vec<u8>> { vec![$( self.$i.encode() ),*] }
		}
	)* }
}
nmap_tuples! {
	(H0 K0 A0 0)
	(H0 K0 A0 0, H1 K1 A1 1)
	(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2)
	(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2, H3 K3 A3 3)
	(H0 K0 A0 0, H1 K1 A1 1, H2 K2 A2 2, H3 K3 A3 3, H4 K4 A4 4)
}
macro_rules! nmap_prefix {
	($( [$($h:ident $k:ident),*] => $p:ty, $s:ty, [$($rh:ident $rk:ident),*] ;)*) => { $(
		impl<$($h: StorageHasher, $k: FullCodec),*> HasKeyPrefix<$p> for ($(Key<$h, $k>,)*) { type Suffix = $s; }
		impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> HasReversibleKeyPrefix<$p> for ($(Key<$h, $k>,)*) {
			#[allow(unused_assignments)]
			fn decode_partial_key(k: &[u8]) -> Result<Self::Suffix, Error> {
				let mut rest = k;
				nmap_suffix!(rest, $($rh $rk),*)
			}
		}
	)* }
}
macro_rules! nmap_suffix {
	($rest:ident, $rh:ident $rk:ident) => { { let mut b = $rh::reverse($rest); Ok($rk::decode(&mut b)?) } };
	($rest:ident, $($rh:ident $rk:ident),*) => { Ok(($( { let mut b = $rh::reverse($rest); let x = $rk::decode(&mut b)?; $rest = b; x }, )*)) };
}
nmap_prefix! {
	[H0 K0, H1 K1] => (K0,), K1, [H1 K1];
	[H0 K0, H1 K1, H2 K2] => (K0,), (K1, K2), [H1 K1, H2 K2];
	[H0 K0, H1 K1, H2 K2] => (K0, K1), K2, [H2 K2];
	[H0 K0, H1 K1, H2 K2, H3 K3] => (K0,), (K1, K2, K3), [H1 K1, H2 K2, H3 K3];
	[H0 K0, H1 K1, H2 K2, H3 K3] => (K0, K1), (K2, K3), [H2 K2, H3 K3];
	[H0 K0, H1 K1, H2 K2, H3 K3] => (K0, K1, K2), K3, [H3 K3];
}

pub struct StorageNMap<P, G, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, G, V, Q, E, M)>);
impl<P, G: KeyGenerator, V, Q: QueryKindTrait<V, E>, E, M> NMapShape for StorageNMap<P, G, V, Q, E, M> {
	type KeyGen = G;
	type Query = Q::Query;
}
impl<P: StorageInstance, G: KeyGenerator, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, G, V, Q, E, M> {
	fn key_of(k: &impl TupleToEncodedIter) -> Vec<u8> {
		let mut v = pre::<P>();
		v.extend(G::final_key(k.to_encoded_iter()));
		v
	}
	map_ops!(Self::key_of(&k), (k: KArg), [KArg: EncodeLikeTuple<G::KArg> + TupleToEncodedIter], V, Q, E);
	pub fn clear_prefix<KP: TupleToEncodedIter>(kp: KP, limit: u32, _cursor: Option<&[u8]>) -> MultiRemovalResults
	where
		G: HasKeyPrefix<KP>,
	{
		host::clear_prefix(&Self::key_of(&kp), Some(limit)).into()
	}
	pub fn contains_prefix<KP: TupleToEncodedIter>(kp: KP) -> bool
	where
		G: HasKeyPrefix<KP>,
	{
		let p = Self::key_of(&kp);
		host::next_key(&p).map_or(false, |k| k.starts_with(&p))
	}
	pub fn iter_prefix_values<KP: TupleToEncodedIter>(kp: KP) -> PrefixIterator<V>
	where
		G: HasKeyPrefix<KP>,
	{
		PrefixIterator::new(Self::key_of(&kp), |_, mut v| V::decode(&mut v))
	}
}
impl<P: StorageInstance, G: ReversibleKeyGenerator, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, G, V, Q, E, M>
where
	G::Key: 'static,
{
	pub fn iter() -> PrefixIterator<(G::Key, V)> {
		PrefixIterator::new(pre::<P>(), |k, mut v| Ok((G::decode_final_key(k)?, V::decode(&mut v)?)))
	}
	pub fn iter_keys() -> KeyPrefixIterator<G::Key> {
		PrefixIterator::new(pre::<P>(), |k, _| G::decode_final_key(k))
	}
	pub fn drain() -> PrefixIterator<(G::Key, V)> {
		Self::iter().drain()
	}
	pub fn iter_prefix<KP: TupleToEncodedIter>(kp: KP) -> PrefixIterator<(<G as HasKeyPrefix<KP>>::Suffix, V)>
	where
		G: HasReversibleKeyPrefix<KP>,
	{
		PrefixIterator::new(Self::key_of(&kp), |k, mut v| Ok((G::decode_partial_key(k)?, V::decode(&mut v)?)))
	}
	pub fn iter_key_prefix<KP: TupleToEncodedIter>(kp: KP) -> KeyPrefixIterator<<G as HasKeyPrefix<KP>>::Suffix>
	where
		G: HasReversibleKeyPrefix<KP>,
	{
		PrefixIterator::new(Self::key_of(&kp), |k, _| G::decode_partial_key(k))
	}
	pub fn drain_prefix<KP: TupleToEncodedIter>(kp: KP) -> PrefixIterator<(<G as HasKeyPrefix<KP>>::Suffix, V)>
	where
		G: HasReversibleKeyPrefix<KP>,
	{
		Self::iter_prefix(kp).drain()
	}
}
