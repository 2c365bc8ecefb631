//! `bounded_collections`
use super::Get;
use crate::codec::{self, *};
use crate::scale_info::{self, TypeInfo};
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::{
	borrow::Borrow,
	collections::{BTreeMap, BTreeSet},
	fmt,
	hash::{Hash, Hasher},
	marker::PhantomData,
	ops::{Bound, Deref, Index, IndexMut, RangeBounds},
	slice::SliceIndex,
};

pub mod bounded_vec {
	pub use super::{BoundedSlice, BoundedVec};
}
pub mod bounded_btree_map {
	pub use super::BoundedBTreeMap;
}
pub mod bounded_btree_set {
	pub use super::BoundedBTreeSet;
}

pub struct BoundedVec<T, S>(pub(crate) Vec<T>, PhantomData<S>);
pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;

pub struct BoundedSlice<'a, T, S>(&'a [T], PhantomData<S>);
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> {
	type Error = &'a [T];
	fn try_from(t: &'a [T]) -> Result<Self, &'a [T]> {
		if t.len() <= S::get() as usize {
			Ok(BoundedSlice(t, PhantomData))
		} else {
			Err(t)
		}
	}
}
impl<'a, T, S> Deref for BoundedSlice<'a, T, S> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		self.0
	}
}

impl<T, S> BoundedVec<T, S> {
	pub const fn new() -> Self {
		BoundedVec(Vec::new(), PhantomData)
	}
	fn unchecked_from(v: Vec<T>) -> Self {
		BoundedVec(v, PhantomData)
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.0.sort_by(f)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.0.last_mut()
	}
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
		self.0.get_mut(i)
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
		self.0.drain(r)
	}
	pub fn split_off(&mut self, at: usize) -> Self {
		Self::unchecked_from(self.0.split_off(at))
	}
	pub fn to_vec(&self) -> Vec<T>
	where
		T: Clone,
	{
		self.0.clone()
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn with_max_capacity() -> Self {
		Self::new()
	}
	pub fn with_bounded_capacity(n: usize) -> Self {
		BoundedVec(Vec::with_capacity(n.min(Self::bound())), PhantomData)
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_push(&mut self, t: T)
	where
		T: fmt::Debug,
	{
		self.try_push(t).expect("force_push")
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_insert_keep_right(&mut self, i: usize, t: T) -> Result<Option<T>, ()> {
		if self.0.len() < i {
			return Err(())
		}
		self.0.insert(i, t);
		Ok(if self.0.len() > Self::bound() { self.0.pop() } else { None })
	}
	pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
		if o.len() + self.0.len() <= Self::bound() {
			self.0.append(o);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if with.len().saturating_add(self.0.len()) <= Self::bound() {
			self.0.extend(with);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()>
	where
		T: Clone,
	{
		if n > Self::bound() {
			return Err(())
		}
		self.0.resize(n, v);
		Ok(())
	}
	pub fn bounded_resize(&mut self, n: usize, v: T)
	where
		T: Clone,
	{
		self.0.resize(n.min(Self::bound()), v)
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		if self.0.len() <= Self::bound() {
			Some(self)
		} else {
			None
		}
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self::unchecked_from(v)
	}
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self {
		Self::unchecked_from(v)
	}
	pub fn bounded_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
	pub fn try_from_vec(v: Vec<T>) -> Result<Self, Vec<T>> {
		Self::try_from(v)
	}
	pub fn try_rotate_left(&mut self, mid: usize) -> Result<(), ()> {
		if mid > self.0.len() {
			return Err(())
		}
		self.0.rotate_left(mid);
		Ok(())
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self::unchecked_from(v))
		} else {
			Err(v)
		}
	}
}
impl<'a, T: Clone, S: Get<u32>> TryFrom<&'a [T]> for BoundedVec<T, S> {
	type Error = ();
	fn try_from(v: &'a [T]) -> Result<Self, ()> {
		Self::try_from(v.to_vec()).map_err(|_| ())
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.0
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self::unchecked_from(self.0.clone())
	}
}
impl<T: fmt::Debug, S> fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: PartialEq, S1, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S1> {
	fn eq(&self, o: &BoundedVec<T, S2>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		self.0 == *o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T: Hash, S> Hash for BoundedVec<T, S> {
	fn hash<H: Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsMut<[T]> for BoundedVec<T, S> {
	fn as_mut(&mut self) -> &mut [T] {
		&mut self.0
	}
}
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> {
	type Output = I::Output;
	fn index(&self, i: I) -> &I::Output {
		&self.0[i]
	}
}
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> {
	fn index_mut(&mut self, i: I) -> &mut I::Output {
		&mut self.0[i]
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> {
	type Item = &'a mut T;
	type IntoIter = std::slice::IterMut<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter_mut()
	}
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let n = Compact::<u32>::decode(i)?.0;
		if n > S::get() {
			return Err("BoundedVec exceeds its limit".into())
		}
		let mut v = Vec::new();
		for _ in 0..n {
			v.push(T::decode(i)?);
		}
		Ok(Self::unchecked_from(v))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encoded_size().saturating_add(Self::bound().saturating_mul(T::max_encoded_len()))
	}
}
impl<T, S> TypeInfo for BoundedVec<T, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<T: Serialize, S> Serialize for BoundedVec<T, S> {
	fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
		self.0.serialize(s)
	}
}
impl<'de, T: Deserialize<'de>, S: Get<u32>> Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		Self::try_from(v).map_err(|_| D::Error::custom("out of bounds"))
	}
}
impl<T: Encode, S: Get<u32>> crate::frame_support::storage::types::TryAppendable for BoundedVec<T, S> {
	type Item = T;
	fn bound() -> usize {
		S::get() as usize
	}
}
impl<T, S> DecodeLength for BoundedVec<T, S> {
	fn len(b: &[u8]) -> Result<usize, codec::Error> {
		<Vec<T> as DecodeLength>::len(b)
	}
}

// ------------------------------------------------------------------------------------------------ map
pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K, V, S> BoundedBTreeMap<K, V, S> {
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub const fn new() -> Self {
		BoundedBTreeMap(BTreeMap::new(), PhantomData)
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
	where
		K: Borrow<Q>,
	{
		self.0.remove_entry(k)
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeMap<K, V>)) -> Option<Self> {
		f(&mut self.0);
		if self.0.len() <= Self::bound() {
			Some(self)
		} else {
			None
		}
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> {
		if v.len() <= Self::bound() {
			Ok(BoundedBTreeMap(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K, V, S> AsRef<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	fn as_ref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K, V, S> From<BoundedBTreeMap<K, V, S>> for BTreeMap<K, V> {
	fn from(b: BoundedBTreeMap<K, V, S>) -> Self {
		b.0
	}
}
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		BoundedBTreeMap(BTreeMap::new(), PhantomData)
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		BoundedBTreeMap(self.0.clone(), PhantomData)
	}
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: PartialEq, V: PartialEq, S1, S2> PartialEq<BoundedBTreeMap<K, V, S2>> for BoundedBTreeMap<K, V, S1> {
	fn eq(&self, o: &BoundedBTreeMap<K, V, S2>) -> bool {
		self.0 == o.0
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &BTreeMap<K, V>) -> bool {
		self.0 == *o
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let m = BTreeMap::decode(i)?;
		Self::try_from(m).map_err(|_| "BoundedBTreeMap exceeds its limit".into())
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encoded_size() + (S::get() as usize).saturating_mul(K::max_encoded_len() + V::max_encoded_len())
	}
}
impl<K, V, S> TypeInfo for BoundedBTreeMap<K, V, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}

// ------------------------------------------------------------------------------------------------ set
pub struct BoundedBTreeSet<K, S>(BTreeSet<K>, PhantomData<S>);
impl<K: Ord, S: Get<u32>> BoundedBTreeSet<K, S> {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_insert(&mut self, k: K) -> Result<bool, K> {
		if self.0.len() < Self::bound() || self.0.contains(&k) {
			Ok(self.0.insert(k))
		} else {
			Err(k)
		}
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
	where
		K: Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn into_inner(self) -> BTreeSet<K> {
		self.0
	}
}
impl<K: Ord, S: Get<u32>> TryFrom<BTreeSet<K>> for BoundedBTreeSet<K, S> {
	type Error = ();
	fn try_from(v: BTreeSet<K>) -> Result<Self, ()> {
		if v.len() <= Self::bound() {
			Ok(BoundedBTreeSet(v, PhantomData))
		} else {
			Err(())
		}
	}
}
impl<K, S> Deref for BoundedBTreeSet<K, S> {
	type Target = BTreeSet<K>;
	fn deref(&self) -> &BTreeSet<K> {
		&self.0
	}
}
impl<K, S> Default for BoundedBTreeSet<K, S> {
	fn default() -> Self {
		BoundedBTreeSet(BTreeSet::new(), PhantomData)
	}
}
impl<K: Clone, S> Clone for BoundedBTreeSet<K, S> {
	fn clone(&self) -> Self {
		BoundedBTreeSet(self.0.clone(), PhantomData)
	}
}
impl<K: PartialEq, S> PartialEq for BoundedBTreeSet<K, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq, S> Eq for BoundedBTreeSet<K, S> {}
impl<K: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<K, S> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: Encode, S> Encode for BoundedBTreeSet<K, S> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<K: Encode, S> EncodeLike for BoundedBTreeSet<K, S> {}
impl<K: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<K, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let m = BTreeSet::decode(i)?;
		Self::try_from(m).map_err(|_| "BoundedBTreeSet exceeds its limit".into())
	}
}
impl<K: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<K, S> {
	fn max_encoded_len() -> usize {
		Compact(S::get()).encoded_size() + (S::get() as usize).saturating_mul(K::max_encoded_len())
	}
}
impl<K, S> TypeInfo for BoundedBTreeSet<K, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
const _: () = {
	let _ = Bound::<u8>::Unbounded;
};

pub trait TryCollect<C> {
	type Bound;
	fn try_collect(self) -> Result<C, &'static str>;
}
impl<T, S: Get<u32>, I: ExactSizeIterator<Item = T>> TryCollect<BoundedVec<T, S>> for I {
	type Bound = S;
	fn try_collect(self) -> Result<BoundedVec<T, S>, &'static str> {
		if self.len() > S::get() as usize {
			Err("iterator length too big")
		} else {
			Ok(BoundedVec::unchecked_from(self.collect()))
		}
	}
}
