use crate::codec::{self, *};
pub use crate::frame_support::dispatch::{DispatchClass, Pays};
use crate::frame_support::dispatch::{DispatchResultWithPostInfo};
use crate::macros::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::{self, TypeInfo};
pub use crate::sp_core::{
	ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstUint, Get, GetDefault, TryCollect, TypedGet,
};
pub use crate::sp_runtime::traits::{BlockNumber, ConstBool as CB, StaticLookup, ValidateUnsigned};
use crate::sp_runtime::{traits::BadOrigin, DispatchError, DispatchResult};
use crate::sp_weights::Weight;
use crate::frame_system::RawOrigin;
use ::serde::{Deserialize, Serialize};
use std::fmt::Debug;
pub mod tokens;
pub use tokens::{
	fungible, BalanceStatus, ExistenceRequirement, Imbalance, WithdrawReasons,
};
pub mod fungible_alias {}

// ---- storage version
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
	fn key<P: PalletInfoAccess>() -> Vec<u8> {
		let mut k = crate::hashing::twox_128(P::name().as_bytes()).to_vec();
		k.extend_from_slice(&crate::hashing::twox_128(b":__STORAGE_VERSION__:"));
		k
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::storage::set(&Self::key::<P>(), &self.encode())
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::storage::get(&Self::key::<P>()).and_then(|v| Decode::decode(&mut &v[..]).ok()).unwrap_or_default()
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		crate::storage::exists(&Self::key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		Some(self.0.cmp(o))
	}
}
pub struct NoStorageVersionSet;
pub trait CurrentVersion {
	fn as_version(&self) -> StorageVersion;
}
impl CurrentVersion for StorageVersion {
	fn as_version(&self) -> StorageVersion {
		*self
	}
}
impl CurrentVersion for NoStorageVersionSet {
	fn as_version(&self) -> StorageVersion {
		StorageVersion::default()
	}
}
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	fn current_storage_version() -> Self::CurrentStorageVersion;
	fn in_code_storage_version() -> Self::CurrentStorageVersion {
		Self::current_storage_version()
	}
	fn on_chain_storage_version() -> StorageVersion;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct CrateVersion {
	pub major: u16,
	pub minor: u8,
	pub patch: u8,
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
	fn module_name<P: 'static>() -> Option<&'static str>;
	fn crate_version<P: 'static>() -> Option<CrateVersion>;
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn module_name() -> &'static str;
	fn crate_version() -> CrateVersion;
}
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
}

// ---- hooks
pub trait OnGenesis {
	fn on_genesis() {}
}
pub trait OnInitialize<N> {
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<N> {
	fn on_finalize(_n: N) {}
}
pub trait OnIdle<N> {
	fn on_idle(_n: N, _rem: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	#[cfg(feature = "try-runtime")]
	fn pre_upgrade() -> Result<Vec<u8>, crate::sp_runtime::TryRuntimeError> {
		Ok(Vec::new())
	}
	#[cfg(feature = "try-runtime")]
	fn post_upgrade(_state: Vec<u8>) -> Result<(), crate::sp_runtime::TryRuntimeError> {
		Ok(())
	}
}
impl OnRuntimeUpgrade for () {}
macro_rules! oru {
	($($n:ident),+) => { impl<$($n: OnRuntimeUpgrade),+> OnRuntimeUpgrade for ($($n,)+) { fn on_runtime_upgrade() -> Weight { let mut w = Weight::zero(); $( w = w.saturating_add($n::on_runtime_upgrade()); )+ w } } };
}
oru!(A);
oru!(A, B);
oru!(A, B, C);
oru!(A, B, C, D);
pub trait OffchainWorker<N> {
	fn offchain_worker(_n: N) {}
}
pub trait Hooks<N> {
	fn on_finalize(_n: N) {}
	fn on_idle(_n: N, _rem: Weight) -> Weight {
		Weight::zero()
	}
	fn on_poll(_n: N, _w: &mut Weight) {}
	fn on_initialize(_n: N) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: N) {}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
impl BuildGenesisConfig for () {
	fn build(&self) {}
}
// ---- types and calls
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait GetCallIndex {
	fn get_call_index(&self) -> u8;
}
#[derive(Clone, Eq, PartialEq, Debug)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait GetCallMetadata {
	fn get_call_metadata(&self) -> CallMetadata;
}
pub trait Callable<T> {
	type RuntimeCall;
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_signed(self) -> Option<Self::AccountId>;
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
	fn sorted_members() -> Vec<T>;
}
pub struct IsInVec<T>(std::marker::PhantomData<T>);
impl<X: Ord + PartialOrd, T: Get<Vec<X>>> SortedMembers<X> for IsInVec<T> {
	fn sorted_members() -> Vec<X> {
		let mut m = T::get();
		m.sort();
		m
	}
}
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<T> Contains<T> for () {
	fn contains(_: &T) -> bool {
		false
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: O) -> Result<Option<Self::Success>, BadOrigin>
	where
		O: OriginTrait,
	{
		if matches!(o.as_system_ref(), Some(RawOrigin::Root)) {
			return Ok(None)
		}
		Self::ensure_origin(o).map(Some)
	}
	fn try_origin(o: O) -> Result<Self::Success, O>;
}
pub struct NeverEnsureOrigin<S>(std::marker::PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
pub struct EitherOfDiverse<L, R>(std::marker::PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
pub type EnsureOneOf<L, R> = EitherOfDiverse<L, R>;
pub struct EitherOf<L, R>(std::marker::PhantomData<(L, R)>);
impl<O, S, L: EnsureOrigin<O, Success = S>, R: EnsureOrigin<O, Success = S>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		L::try_origin(o).or_else(|o| R::try_origin(o))
	}
}
pub struct AsEnsureOriginWithArg<E>(std::marker::PhantomData<E>);
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<std::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<Origin: PartialEq> PrivilegeCmp<Origin> for EqualPrivilegeOnly {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<std::cmp::Ordering> {
		(left == right).then_some(std::cmp::Ordering::Equal)
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
impl<T: IntoIterator + Clone> Len for T
where
	<T as IntoIterator>::IntoIter: ExactSizeIterator,
{
	fn len(&self) -> usize {
		self.clone().into_iter().len()
	}
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> std::time::Duration;
}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |m| {
			let mut t = m.take().unwrap_or_default();
			let r = f(&mut t);
			*m = Some(t);
			Ok(r)
		})
	}
	fn insert(k: &K, t: T) -> Result<(), DispatchError> {
		Self::mutate(k, |i| *i = t)
	}
}
pub trait OnUnbalanced<I> {
	fn on_unbalanced(_i: I) {}
	fn on_nonzero_unbalanced(_i: I) {}
	fn on_unbalanceds<B>(_i: impl Iterator<Item = I>) {}
}
impl<I> OnUnbalanced<I> for () {}
pub type LockIdentifier = [u8; 8];
pub trait Currency<AccountId> {
	type Balance: tokens::Balance;
	type PositiveImbalance;
	type NegativeImbalance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn transfer(from: &AccountId, to: &AccountId, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
	fn deposit_creating(who: &AccountId, v: Self::Balance);
	fn make_free_balance_be(who: &AccountId, v: Self::Balance);
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
	type Moment;
	type MaxLocks: Get<u32>;
	fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
	fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, r: WithdrawReasons);
	fn remove_lock(id: LockIdentifier, who: &AccountId);
}
pub trait Defensive<T>: Sized {
	fn good(self) -> Option<T>;
	fn defensive(self) -> Self {
		self
	}
	fn defensive_proof(self, _proof: &'static str) -> Self {
		self
	}
	fn defensive_unwrap_or(self, or: T) -> T {
		self.good().unwrap_or(or)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.good().unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.good().unwrap_or_default()
	}
}
impl<T> Defensive<T> for Option<T> {
	fn good(self) -> Option<T> {
		self
	}
}
impl<T, E> Defensive<T> for Result<T, E> {
	fn good(self) -> Option<T> {
		self.ok()
	}
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.ok_or_else(err)
	}
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> {
		self.ok_or(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.map(f)
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.map_or_else(default, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.map(f)
	}
}
pub trait DefensiveSaturating: Sized {
	fn defensive_saturating_add(self, o: Self) -> Self;
	fn defensive_saturating_sub(self, o: Self) -> Self;
	fn defensive_saturating_mul(self, o: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, o: Self);
	fn defensive_saturating_reduce(&mut self, o: Self);
	fn defensive_saturating_inc(&mut self);
	fn defensive_saturating_dec(&mut self);
}
impl<T: crate::sp_runtime::traits::Saturating + crate::sp_runtime::traits::One + Copy> DefensiveSaturating for T {
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.saturating_add(o)
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.saturating_sub(o)
	}
	fn defensive_saturating_mul(self, o: Self) -> Self {
		self.saturating_mul(o)
	}
	fn defensive_saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	fn defensive_saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	fn defensive_saturating_inc(&mut self) {
		*self = self.saturating_add(T::one())
	}
	fn defensive_saturating_dec(&mut self) {
		*self = self.saturating_sub(T::one())
	}
}
pub trait DefensiveTruncateFrom<T> {
	fn defensive_truncate_from(unbound: T) -> Self;
}
impl<T, B: Get<u32>> DefensiveTruncateFrom<Vec<T>> for crate::sp_core::BoundedVec<T, B> {
	fn defensive_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
}
pub trait EnsureOriginWithArg<O, Argument> {
	type Success;
	fn ensure_origin(o: O, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: O, a: &Argument) -> Result<Self::Success, O>;
}
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<Self::Success, O> {
		E::try_origin(o)
	}
}
pub struct MapSuccess<E, F>(std::marker::PhantomData<(E, F)>);
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
pub trait OnNewAccount<A> {
	fn on_new_account(_who: &A) {}
}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_who: &A) {}
}
impl<A> OnNewAccount<A> for () {}
impl<A> OnKilledAccount<A> for () {}
pub trait Incrementable: Sized {
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! incrementable {
	($($t:ty)*) => { $( impl Incrementable for $t {
		fn increment(&self) -> Option<Self> {
			self.checked_add(1)
		}
		fn initial_value() -> Option<Self> {
			Some(0)
		}
	} )* };
}
incrementable!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
pub trait Randomness<O, N> {
	fn random(subject: &[u8]) -> (O, N);
}

pub struct LinearStoragePrice<A, B, C>(std::marker::PhantomData<(A, B, C)>);
