//! `frame_support`
pub use crate::macros::{
	construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, OrdNoBound, PalletError, PartialEqNoBound,
	PartialOrdNoBound, RuntimeDebugNoBound,
};
pub use crate::sp_core::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, RuntimeDebug, WeakBoundedVec};
pub use crate::sp_runtime::{self, print};
pub use crate::{bounded_vec, defensive, defensive_assert, codec, frame_system, log_once_placeholder, scale_info, sp_core, sp_io, sp_std, sp_weights};
pub use hash::*;
pub use serde;
pub mod bounded_vec_mod {}
pub mod hash;
#[path = "frame_support/types.rs"]
mod types_impl;
pub mod dispatch;
pub mod traits;
pub mod storage {
	pub use crate::sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
	pub use crate::storage::{in_storage_layer, with_storage_layer, with_transaction, with_transaction_unchecked};
	pub mod bounded_vec {
		pub use crate::sp_core::{BoundedSlice, BoundedVec};
	}
	pub mod weak_bounded_vec {
		pub use crate::sp_core::WeakBoundedVec;
	}
	pub mod bounded_btree_map {
		pub use crate::sp_core::BoundedBTreeMap;
	}
	pub mod bounded_btree_set {
		pub use crate::sp_core::BoundedBTreeSet;
	}
	pub mod transactional {
		pub use crate::storage::{in_storage_layer, is_transactional, with_storage_layer, with_transaction, with_transaction_unchecked};
	}
	pub mod types {
		pub use super::super::types_impl::*;
	}
	pub use types::{Key, KeyPrefixIterator, PrefixIterator};
	pub fn storage_prefix(pallet: &[u8], storage: &[u8]) -> [u8; 32] {
		let mut o = [0u8; 32];
		o[..16].copy_from_slice(&crate::hashing::twox_128(pallet));
		o[16..].copy_from_slice(&crate::hashing::twox_128(storage));
		o
	}
	pub mod generator {}
	pub mod unhashed {
		use crate::codec::*;
		pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
			crate::storage::get(k).and_then(|v| T::decode(&mut &v[..]).ok())
		}
		pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
			crate::storage::get(k)
		}
		pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
			v.using_encoded(|b| crate::storage::set(k, b))
		}
		pub fn put_raw(k: &[u8], v: &[u8]) {
			crate::storage::set(k, v)
		}
		pub fn exists(k: &[u8]) -> bool {
			crate::storage::exists(k)
		}
		pub fn kill(k: &[u8]) {
			crate::storage::clear(k)
		}
	}
	pub mod child {
		pub use crate::sp_core::storage::ChildInfo;
		use crate::codec::*;
		use crate::storage as host;
		pub fn get<T: Decode + Sized>(c: &ChildInfo, k: &[u8]) -> Option<T> {
			host::child_get(c.storage_key(), k).and_then(|v| T::decode(&mut &v[..]).ok())
		}
		pub fn get_or_default<T: Decode + Sized + Default>(c: &ChildInfo, k: &[u8]) -> T {
			get(c, k).unwrap_or_default()
		}
		pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> {
			host::child_get(c.storage_key(), k)
		}
		pub fn put<T: Encode>(c: &ChildInfo, k: &[u8], v: &T) {
			v.using_encoded(|b| host::child_set(c.storage_key(), k, b))
		}
		pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) {
			host::child_set(c.storage_key(), k, v)
		}
		pub fn take<T: Decode + Sized>(c: &ChildInfo, k: &[u8]) -> Option<T> {
			let r = get(c, k);
			if r.is_some() {
				kill(c, k);
			}
			r
		}
		pub fn exists(c: &ChildInfo, k: &[u8]) -> bool {
			host::child_get(c.storage_key(), k).is_some()
		}
		pub fn kill(c: &ChildInfo, k: &[u8]) {
			host::child_clear(c.storage_key(), k)
		}
		pub fn kill_storage(c: &ChildInfo, limit: Option<u32>) -> KillStorageResult {
			let r = host::child_clear_prefix(c.storage_key(), &[], limit);
			if r.more {
				KillStorageResult::SomeRemaining(r.backend)
			} else {
				KillStorageResult::AllRemoved(r.backend)
			}
		}
		pub fn clear_storage(c: &ChildInfo, limit: Option<u32>, _cursor: Option<&[u8]>) -> super::types::MultiRemovalResults {
			host::child_clear_prefix(c.storage_key(), &[], limit).into()
		}
		pub fn len(c: &ChildInfo, k: &[u8]) -> Option<u32> {
			host::child_get(c.storage_key(), k).map(|v| v.len() as u32)
		}
		pub enum KillStorageResult {
			AllRemoved(u32),
			SomeRemaining(u32),
		}
	}
	/// Iterates over a prefix of a child trie, with raw keys relative to the prefix.
	pub struct ChildTriePrefixIterator<T> {
		prefix: Vec<u8>,
		child: Vec<u8>,
		prev: Vec<u8>,
		drain: bool,
		first: bool,
		dec: fn(&[u8], &[u8]) -> Result<T, crate::codec::Error>,
	}
	impl<T: crate::codec::Decode> ChildTriePrefixIterator<(Vec<u8>, T)> {
		pub fn with_prefix(c: &child::ChildInfo, prefix: &[u8]) -> Self {
			Self {
				prefix: prefix.to_vec(),
				child: c.storage_key().to_vec(),
				prev: prefix.to_vec(),
				drain: false,
				first: true,
				dec: |k, mut v| Ok((k.to_vec(), T::decode(&mut v)?)),
			}
		}
	}
	impl<T> ChildTriePrefixIterator<T> {
		pub fn drain(mut self) -> Self {
			self.drain = true;
			self
		}
	}
	impl<T> Iterator for ChildTriePrefixIterator<T> {
		type Item = T;
		fn next(&mut self) -> Option<T> {
			loop {
				let next = if self.first {
					self.first = false;
					if crate::storage::child_get(&self.child, &self.prev).is_some() {
						Some(self.prev.clone())
					} else {
						crate::storage::child_next_key(&self.child, &self.prev)
					}
				} else {
					crate::storage::child_next_key(&self.child, &self.prev)
				};
				let k = next.filter(|n| n.starts_with(&self.prefix))?;
				self.prev = k.clone();
				let Some(raw) = crate::storage::child_get(&self.child, &k) else { continue };
				if self.drain {
					crate::storage::child_clear(&self.child, &k);
				}
				match (self.dec)(&k[self.prefix.len()..], &raw) {
					Ok(i) => return Some(i),
					Err(e) => {
						log::error!("(key, value) failed to decode at {:?}: {:?}", k, e);
						continue
					},
				}
			}
		}
	}
}
pub mod weights {
	pub use crate::frame_support::dispatch::{DispatchClass, Pays};
	pub use crate::sp_weights::*;
}
pub mod unsigned {
	pub use crate::sp_runtime::traits::ValidateUnsigned;
	pub use crate::sp_runtime::transaction_validity::{
		InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction,
	};
}
pub mod inherent {
	#[derive(Default)]
	pub struct InherentData;
}
pub mod pallet_prelude {
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use super::storage;
	pub use super::hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat};
	pub use super::storage::types::{
		CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery,
	};
	pub use super::traits::{
		BuildGenesisConfig, ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get,
		GetDefault, GetStorageVersion, Hooks, IsType, StorageInstance, StorageVersion, TypedGet,
	};
	pub use super::{
		ensure, transactional, BoundedVec, CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound,
	};
	pub use crate::codec::{Decode, Encode, MaxEncodedLen};
	pub use crate::scale_info::TypeInfo;
	pub use crate::sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::sp_runtime::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError,
		UnknownTransaction, ValidTransaction,
	};
	pub use crate::sp_std::marker::PhantomData;
	pub use crate::sp_weights::Weight;
	pub use super::dispatch::DispatchResult as DispatchResultAlias;
}
pub mod testing_prelude {
	pub use super::{assert_err, assert_noop, assert_ok, assert_storage_noop, parameter_types};
	pub use super::traits::Get;
}
pub mod genesis_builder_helper {
	pub fn build_config() {}
	pub fn create_default_config() {}
}
pub use dispatch::Parameter;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Never {}
impl crate::codec::Encode for Never {
	fn encode_to<O: crate::codec::Output + ?Sized>(&self, _: &mut O) {}
}
impl crate::codec::Decode for Never {
	fn decode<I: crate::codec::Input>(_: &mut I) -> Result<Self, crate::codec::Error> {
		Err("never".into())
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, crate::macros::Encode, crate::macros::Decode, crate::macros::TypeInfo, crate::macros::MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);

pub use crate::{
	assert_err, assert_err_ignore_postinfo, assert_err_with_weight, assert_error_encoded_size, assert_noop, assert_ok, assert_storage_noop, ensure, fail, ord_parameter_types, parameter_types,
	runtime_print,
};

pub fn storage_root_for_tests() -> u128 {
	crate::storage::with(|e| {
		let mut h = 0u128;
		for (k, v) in e.overlay.iter() {
			if e.base.map.get(k) != v.as_ref() {
				let mut d = k.to_vec();
				d.extend_from_slice(v.as_deref().unwrap_or(b"-"));
				h = h.wrapping_add(u128::from_le_bytes(crate::hashing::twox_128(&d)));
			}
		}
		h
	})
}
#[macro_export]
macro_rules! log_once_placeholder { () => {}; }
#[macro_export]
macro_rules! runtime_print { ($($t:tt)*) => { () }; }
#[macro_export]
macro_rules! assert_error_encoded_size { ($($t:tt)*) => {}; }
#[macro_export]
macro_rules! fail {
	( $y:expr ) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! ensure {
	( $x:expr, $y:expr $(,)? ) => {{
		if !$x {
			return Err($y.into());
		}
	}};
}
#[macro_export]
macro_rules! assert_ok {
	( $x:expr $(,)? ) => {{
		let is = $x;
		match is {
			Ok(_) => (),
			_ => panic!("Expected Ok(_). Got {:#?}", is),
		}
	}};
	( $x:expr, $y:expr $(,)? ) => { assert_eq!($x, Ok($y)); };
}
#[macro_export]
macro_rules! assert_noop {
	( $x:expr, $y:expr $(,)? ) => {{
		let h = $crate::frame_support::storage_root_for_tests();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::frame_support::storage_root_for_tests(), "storage has been mutated");
	}};
}
#[macro_export]
macro_rules! assert_storage_noop {
	( $x:expr ) => {{
		let h = $crate::frame_support::storage_root_for_tests();
		$x;
		assert_eq!(h, $crate::frame_support::storage_root_for_tests());
	}};
}
#[macro_export]
macro_rules! assert_err {
	( $x:expr , $y:expr $(,)? ) => { assert_eq!($x, Err($y.into())); };
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	( $x:expr , $y:expr $(,)? ) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); };
}
#[macro_export]
macro_rules! assert_err_with_weight {
	( $x:expr , $y:expr, $w:expr $(,)? ) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); };
}
#[macro_export]
macro_rules! bounded_vec {
	($ ($values:expr),* $(,)?) => { $crate::sp_std::vec![$($values),*].try_into().unwrap() };
	( $value:expr ; $repetition:expr ) => { $crate::sp_std::vec![$value ; $repetition].try_into().unwrap() };
}
#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )* $vis struct $name;
		$crate::parameter_types!(IMPL_CONST $name, $type, $value);
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )* $vis struct $name;
		$crate::parameter_types!(IMPL $name, $type, $value);
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )* $vis struct $name;
		$crate::parameter_types!(IMPL_STATIC $name, $type, $value);
		$crate::parameter_types!( $( $rest )* );
	};
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )* $vis struct $name;
		$crate::parameter_types!(IMPL $name, $type, $value);
		$crate::parameter_types!( $( $rest )* );
	};
	() => ();
	(IMPL_CONST $name:ident, $type:ty, $value:expr) => {
		impl $name { pub const fn get() -> $type { $value } }
		impl<_I: From<$type>> $crate::sp_core::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::sp_core::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
	};
	(IMPL $name:ident, $type:ty, $value:expr) => {
		impl $name { pub fn get() -> $type { $value } }
		impl<_I: From<$type>> $crate::sp_core::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::sp_core::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
	};
	(IMPL_STATIC $name:ident, $type:ty, $value:expr) => {
		impl $name {
			fn with<R>(f: impl FnOnce(&mut $type) -> R) -> R {
				::std::thread_local! { static V: ::std::cell::RefCell<$type> = ::std::cell::RefCell::new($value); }
				V.with(|v| f(&mut *v.borrow_mut()))
			}
			pub fn get() -> $type { Self::with(|v| v.clone()) }
			pub fn set(t: $type) { Self::with(|v| *v = t) }
			#[allow(unused)] pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { Self::with(f) }
			#[allow(unused)] pub fn take() -> $type { Self::with(|v| ::std::mem::replace(v, $value)) }
		}
		impl<_I: From<$type>> $crate::sp_core::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
	};
}
#[macro_export]
macro_rules! ord_parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident: $type:ty = $value:expr; $( $rest:tt )* ) => {
		$( #[ $attr ] )* $vis struct $name;
		$crate::parameter_types!(IMPL $name, $type, $value);
		impl $crate::frame_support::traits::SortedMembers<$type> for $name {
			fn contains(t: &$type) -> bool { &$value == t }
			fn sorted_members() -> Vec<$type> { vec![$value] }
		}
		$crate::ord_parameter_types!( $( $rest )* );
	};
	() => ();
}

/// Where the code claims that something never happens: logged, as in a production build.
#[macro_export]
macro_rules! defensive {
	() => { $crate::frame_support::defensive_log("") };
	($($t:expr),+ $(,)?) => { $crate::frame_support::defensive_log(concat!($(stringify!($t), " "),+)) };
}
#[macro_export]
macro_rules! defensive_assert {
	($c:expr $(, $t:expr)* $(,)?) => {
		if !$c {
			$crate::frame_support::defensive_log(stringify!($c))
		}
	};
}
pub fn defensive_log(t: &str) {
	log::error!("a defensive failure has been triggered: {}", t)
}
