//! `frame_system`
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, FullCodec, HasCompact, MaxEncodedLen};
use crate::macros::{Decode as _, Encode as _};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{
	self, AtLeast32Bit, BadOrigin, BlockNumberProvider, Bounded, DispatchInfoOf, Dispatchable, Hash as HashT, HeaderProvider, Lookup, One, PostDispatchInfoOf,
	Saturating, SignedExtension, StaticLookup as SL, UniqueSaturatedInto, Zero,
};
use crate::sp_runtime::{self, generic, DispatchError};
use crate::sp_version::RuntimeVersion;
use crate::sp_weights::{RuntimeDbWeight, Weight};
use std::fmt::{self, Debug};
use std::marker::PhantomData;
pub use pallet::*;
pub mod limits;
pub use extensions::*;
pub mod mocking {
	use super::generic;
	use crate::sp_runtime::traits::BlakeTwo256;
	pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> = generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, Signature, Extra>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
pub mod weights {}
pub mod offchain {}

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: crate::frame_support::traits::TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(S::get()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(w) => Ok(w),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: Ord + Clone> EnsureOrigin<O> for EnsureSignedBy<W, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref w) if W::contains(w) => Ok(w.clone()),
			r => Err(O::from(r)),
		})
	}
}

pub type RefCount = u32;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	Initialization,
}
impl Default for Phase {
	fn default() -> Self {
		Self::Initialization
	}
}
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo)]
pub struct EventRecord<E: Parameter + Member, T> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<T>,
}
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
	fn default() -> Self {
		ChainContext(PhantomData)
	}
}
impl<T: Config> Lookup for ChainContext<T> {
	type Source = <T::Lookup as SL>::Source;
	type Target = <T::Lookup as SL>::Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, traits::LookupError> {
		<T::Lookup as SL>::lookup(s)
	}
}
pub trait SetCode<T> {
	fn set_code(_c: Vec<u8>) -> DispatchResult {
		Ok(())
	}
}
impl<T> SetCode<T> for () {}
pub trait OnNewAccount<A> {
	fn on_new_account(_: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {}

#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	use crate as _;

	pub mod config_preludes {}
	#[pallet::config]
	#[pallet::disable_frame_system_supertrait_check]
	pub trait Config: 'static + Eq + Clone + Debug {
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as Config>::RuntimeEvent>;
		type BaseCallFilter: Contains<<Self as Config>::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = <Self as Config>::RuntimeCall, AccountId = Self::AccountId>
			+ Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter
			+ Member
			+ MaybeSerializeDeserialize
			+ Debug
			+ Default
			+ std::fmt::Display
			+ AtLeast32Bit
			+ Copy
			+ MaxEncodedLen
			+ HasCompact
			+ UniqueSaturatedInto<u64>
			+ TryFrom<u64>;
		type Hash: Parameter
			+ Member
			+ Debug
			+ std::fmt::Display
			+ Ord
			+ Default
			+ Copy
			+ std::hash::Hash
			+ AsRef<[u8]>
			+ AsMut<[u8]>
			+ MaxEncodedLen
			+ From<crate::sp_core::H256>;
		type Hashing: HashT<Output = Self::Hash>;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + Ord + MaxEncodedLen;
		type Lookup: SL<Target = Self::AccountId>;
		type Block: Parameter + Member + traits::Block<Hash = Self::Hash>;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<RuntimeDbWeight>;
		type Version: Get<RuntimeVersion>;
		type PalletInfo: PalletInfo;
		type AccountData: Member + Codec + EncodeLike + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix: Get<u16>;
		type OnSetCode: SetCode<Self>;
		type MaxConsumers: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(2_000_000 + remark.len() as u64 * 400, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(1_000_000_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			T::OnSetCode::set_code(code)?;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for (k, v) in items {
				crate::storage::set(&k, &v);
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(5_000_000 + remark.len() as u64 * 1000, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(Event::Remarked { sender: who, hash });
			Ok(().into())
		}
	}
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
	}
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_weight)]
	pub type BlockWeight<T: Config> = StorageValue<_, limits::ConsumedWeight, ValueQuery>;
	#[pallet::storage]
	pub type AllExtrinsicsLen<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicData<T: Config> = StorageMap<_, Twox64Concat, u32, Vec<u8>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_number)]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn digest)]
	pub type DigestStore<T: Config> = StorageValue<_, generic::Digest, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<Box<EventRecord<T::RuntimeEvent, T::Hash>>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn event_count)]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub type ExecutionPhase<T: Config> = StorageValue<_, Phase>;
	#[pallet::storage]
	pub type LastRuntimeUpgrade<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type ExtrinsicIndex<T: Config> = StorageValue<_, u32>;

	#[pallet::genesis_config]
	#[derive(crate::macros::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			<BlockHash<T>>::insert(BlockNumberFor::<T>::zero(), T::Hash::from(crate::sp_core::H256([69u8; 32])));
			<ParentHash<T>>::put::<T::Hash>(T::Hash::from(crate::sp_core::H256([69u8; 32])));
			<LastRuntimeUpgrade<T>>::put(T::Version::get().spec_version);
		}
	}
}
impl<T: Config> GenesisConfig<T> {
	pub fn default_config() -> Self {
		Default::default()
	}
}

pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = <<T as super::Config>::Block as crate::sp_runtime::traits::HeaderProvider>::HeaderT;
	pub type BlockNumberFor<T> = <HeaderFor<T> as crate::sp_runtime::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <<T as super::Config>::Block as crate::sp_runtime::traits::Block>::Extrinsic;
	pub type RuntimeCallFor<T> = <T as super::Config>::RuntimeCall;
}
use pallet_prelude::*;

impl<T: Config> Pallet<T> {
	pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
		Self::deposit_event_indexed(&[], event.into())
	}
	pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
		if Self::block_number().is_zero() {
			return
		}
		let phase = ExecutionPhase::<T>::get().unwrap_or_default();
		let r = EventRecord { phase, event, topics: topics.to_vec() };
		EventCount::<T>::mutate(|c| *c += 1);
		Events::<T>::append(Box::new(r));
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
		Events::<T>::get().into_iter().map(|e| *e).collect()
	}
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> {
		Events::<T>::get().into_iter()
	}
	pub fn read_events_for_pallet<E>() -> Vec<E>
	where
		T::RuntimeEvent: TryInto<E>,
	{
		Events::<T>::get().into_iter().filter_map(|e| e.event.try_into().ok()).collect()
	}
	pub fn reset_events() {
		Events::<T>::kill();
		EventCount::<T>::kill();
	}
	pub fn assert_last_event(e: T::RuntimeEvent) {
		assert_eq!(Self::events().pop().expect("an event").event, e)
	}
	pub fn assert_has_event(e: T::RuntimeEvent) {
		assert!(Self::events().iter().any(|r| r.event == e), "expected event {:?} not found", e)
	}
	pub fn set_block_number(n: BlockNumberFor<T>) {
		Number::<T>::put(n)
	}
	pub fn set_parent_hash(h: T::Hash) {
		ParentHash::<T>::put(h)
	}
	pub fn runtime_version() -> RuntimeVersion {
		T::Version::get()
	}
	pub fn account_nonce(who: impl EncodeLike<T::AccountId>) -> T::Nonce {
		Account::<T>::get(who).nonce
	}
	pub fn inc_account_nonce(who: impl EncodeLike<T::AccountId>) {
		Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one())
	}
	pub fn account_exists(who: &T::AccountId) -> bool {
		Account::<T>::contains_key(who)
	}
	pub fn providers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).providers
	}
	pub fn sufficients(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).sufficients
	}
	pub fn consumers(who: &T::AccountId) -> RefCount {
		Account::<T>::get(who).consumers
	}
	pub fn reference_count(who: &T::AccountId) -> RefCount {
		let a = Account::<T>::get(who);
		a.consumers + a.providers + a.sufficients
	}
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 {
				a.providers = 1;
				T::OnNewAccount::on_new_account(who);
				Self::deposit_event(Event::<T>::NewAccount { account: who.clone() });
				IncRefStatus::Created
			} else {
				a.providers = a.providers.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			if let Some(mut a) = m.take() {
				if a.providers == 0 {
					a.providers = 1;
				}
				match (a.providers, a.consumers, a.sufficients) {
					(1, 0, 0) => {
						T::OnKilledAccount::on_killed_account(who);
						Self::deposit_event(Event::<T>::KilledAccount { account: who.clone() });
						Ok(DecRefStatus::Reaped)
					},
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => {
						a.providers = x - 1;
						*m = Some(a);
						Ok(DecRefStatus::Exists)
					},
				}
			} else {
				Ok(DecRefStatus::Reaped)
			}
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 {
				a.sufficients = 1;
				Self::deposit_event(Event::<T>::NewAccount { account: who.clone() });
				IncRefStatus::Created
			} else {
				a.sufficients = a.sufficients.saturating_add(1);
				IncRefStatus::Existed
			}
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate(who, |a| {
			a.sufficients = a.sufficients.saturating_sub(1);
			DecRefStatus::Exists
		})
	}
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| {
			if a.providers > 0 {
				if a.consumers < T::MaxConsumers::get() {
					a.consumers += 1;
					Ok(())
				} else {
					Err(DispatchError::TooManyConsumers)
				}
			} else {
				Err(DispatchError::NoProviders)
			}
		})
	}
	pub fn dec_consumers(who: &T::AccountId) {
		Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
	}
	pub fn can_dec_provider(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.consumers == 0 || a.providers > 1
	}
	pub fn is_provider_required(who: &T::AccountId) -> bool {
		Account::<T>::get(who).consumers != 0
	}
	pub fn can_inc_consumer(who: &T::AccountId) -> bool {
		let a = Account::<T>::get(who);
		a.providers > 0 && a.consumers < T::MaxConsumers::get()
	}
	// ---- block execution
	pub fn initialize(number: &BlockNumberFor<T>, parent: &T::Hash, digest: &generic::Digest) {
		ExecutionPhase::<T>::put(Phase::Initialization);
		ExtrinsicIndex::<T>::put(0u32);
		Number::<T>::put(*number);
		DigestStore::<T>::put(digest);
		ParentHash::<T>::put(parent);
		BlockHash::<T>::insert(*number - One::one(), parent);
		BlockWeight::<T>::kill();
	}
	pub fn finalize() -> HeaderFor<T> {
		ExecutionPhase::<T>::kill();
		AllExtrinsicsLen::<T>::kill();
		let number = Number::<T>::get();
		let parent_hash = ParentHash::<T>::get();
		let digest = DigestStore::<T>::get();
		let n = ExtrinsicCount::<T>::take().unwrap_or_default();
		let xts: Vec<Vec<u8>> = (0..n).map(|i| ExtrinsicData::<T>::take(i)).collect();
		let xr = <T::Hashing as HashT>::hash_of(&xts);
		// prune old hashes
		let c = T::BlockHashCount::get();
		if number > c {
			let rm = number.saturating_sub(c).saturating_sub(One::one());
			if !rm.is_zero() {
				BlockHash::<T>::remove(rm);
			}
		}
		let mut root = [0u8; 32];
		root[..16].copy_from_slice(&crate::storage::root().to_be_bytes());
		let h = (parent_hash, number, crate::sp_core::H256(root), xr, digest).encode();
		HeaderFor::<T>::from_parts(&h)
	}
	pub fn note_extrinsic(encoded: Vec<u8>) {
		ExtrinsicData::<T>::insert(Self::extrinsic_index().unwrap_or_default(), encoded);
	}
	pub fn extrinsic_index() -> Option<u32> {
		ExtrinsicIndex::<T>::get()
	}
	pub fn note_applied_extrinsic(r: &DispatchResultWithPostInfo, info: DispatchInfo) {
		let weight = extract_actual_weight(r, &info);
		let pays_fee = extract_actual_pays_fee(r, &info);
		let info = DispatchInfo { weight, pays_fee, ..info };
		Self::deposit_event(match r {
			Ok(_) => Event::<T>::ExtrinsicSuccess { dispatch_info: info },
			Err(e) => Event::<T>::ExtrinsicFailed { dispatch_error: e.error, dispatch_info: info },
		});
		let next = Self::extrinsic_index().unwrap_or_default() + 1;
		ExtrinsicIndex::<T>::put(next);
		ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(next));
	}
	pub fn note_finished_initialize() {
		ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(0))
	}
	pub fn note_finished_extrinsics() {
		let n = ExtrinsicIndex::<T>::take().unwrap_or_default();
		ExtrinsicCount::<T>::put(n);
		ExecutionPhase::<T>::put(Phase::Finalization);
	}
	pub fn register_extra_weight_unchecked(w: Weight, class: DispatchClass) {
		BlockWeight::<T>::mutate(|c| c.accrue(w, class))
	}
	pub fn remaining_block_weight() -> Weight {
		T::BlockWeights::get().max_block.saturating_sub(BlockWeight::<T>::get().total())
	}
	#[cfg(feature = "std")]
	pub fn externalities() {}
}
/// Builds a header from its encoded parts.
pub trait FromParts {
	fn from_parts(b: &[u8]) -> Self;
}
impl<H: traits::Header> FromParts for H {
	fn from_parts(mut b: &[u8]) -> Self {
		let i = &mut b;
		let parent = <[u8; 32]>::decode(i).expect("parent");
		let n = H::Number::decode(i).expect("number");
		let n: u64 = n.unique_saturated_into();
		let mut v = parent.to_vec();
		n.encode_to(&mut v);
		v.extend_from_slice(i);
		H::decode(&mut &v[..]).expect("header")
	}
}
impl<T: Config> BlockNumberProvider for Pallet<T> {
	type BlockNumber = BlockNumberFor<T>;
	fn current_block_number() -> Self::BlockNumber {
		Self::block_number()
	}
}
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData {
		Account::<T>::get(k).data
	}
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data.encode() == T::AccountData::default().encode();
		let mut some_data = if is_default { None } else { Some(account.data) };
		let r = f(&mut some_data)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
			Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
		} else {
			Account::<T>::remove(k)
		}
		Ok(r)
	}
}

mod extensions {
	use super::*;
	macro_rules! simple {
		($n:ident) => {
			#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
			pub struct $n<T: Config>(PhantomData<T>);
			impl<T: Config> $n<T> {
				pub fn new() -> Self {
					Self(PhantomData)
				}
			}
			impl<T: Config> Default for $n<T> {
				fn default() -> Self {
					Self::new()
				}
			}
			impl<T: Config> Debug for $n<T> {
				fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
					f.write_str(stringify!($n))
				}
			}
		};
	}
	simple!(CheckNonZeroSender);
	simple!(CheckSpecVersion);
	simple!(CheckTxVersion);
	simple!(CheckGenesis);
	simple!(CheckWeight);
	impl<T: Config + Send + Sync> SignedExtension for CheckNonZeroSender<T> {
		const IDENTIFIER: &'static str = "CheckNonZeroSender";
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = ();
		type Pre = ();
		fn additional_signed(&self) -> Result<(), TransactionValidityError> {
			Ok(())
		}
		fn validate(&self, who: &T::AccountId, _: &Self::Call, _: &DispatchInfoOf<Self::Call>, _: usize) -> TransactionValidity {
			if who.using_encoded(|d| d.iter().all(|x| *x == 0)) {
				return Err(InvalidTransaction::BadSigner.into())
			}
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &T::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
			self.validate(who, c, i, l).map(|_| ())
		}
	}
	macro_rules! additional {
		($n:ident, $t:ty, $e:expr) => {
			impl<T: Config + Send + Sync> SignedExtension for $n<T> {
				const IDENTIFIER: &'static str = stringify!($n);
				type AccountId = T::AccountId;
				type Call = T::RuntimeCall;
				type AdditionalSigned = $t;
				type Pre = ();
				fn additional_signed(&self) -> Result<$t, TransactionValidityError> {
					Ok($e)
				}
				fn pre_dispatch(self, who: &T::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
					self.validate(who, c, i, l).map(|_| ())
				}
			}
		};
	}
	additional!(CheckSpecVersion, u32, Pallet::<T>::runtime_version().spec_version);
	additional!(CheckTxVersion, u32, Pallet::<T>::runtime_version().transaction_version);
	additional!(CheckGenesis, T::Hash, Pallet::<T>::block_hash(BlockNumberFor::<T>::zero()));

	#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
	pub struct CheckEra<T: Config>(pub generic::Era, PhantomData<T>);
	pub type CheckMortality<T> = CheckEra<T>;
	impl<T: Config> CheckEra<T> {
		pub fn from(era: generic::Era) -> Self {
			Self(era, PhantomData)
		}
	}
	impl<T: Config> Debug for CheckEra<T> {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			write!(f, "CheckEra({:?})", self.0)
		}
	}
	impl<T: Config + Send + Sync> SignedExtension for CheckEra<T> {
		const IDENTIFIER: &'static str = "CheckMortality";
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = T::Hash;
		type Pre = ();
		fn validate(&self, _: &T::AccountId, _: &Self::Call, _: &DispatchInfoOf<Self::Call>, _: usize) -> TransactionValidity {
			let now: u64 = Pallet::<T>::block_number().unique_saturated_into();
			let till = self.0.death(now);
			Ok(ValidTransaction { longevity: till.saturating_sub(now), ..Default::default() })
		}
		fn additional_signed(&self) -> Result<T::Hash, TransactionValidityError> {
			let now: u64 = Pallet::<T>::block_number().unique_saturated_into();
			let n: BlockNumberFor<T> = crate::sp_runtime::traits::SaturatedConversion::saturated_into(self.0.birth(now));
			if !BlockHash::<T>::contains_key(n) {
				Err(InvalidTransaction::AncientBirthBlock.into())
			} else {
				Ok(Pallet::<T>::block_hash(n))
			}
		}
		fn pre_dispatch(self, who: &T::AccountId, c: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
			self.validate(who, c, i, l).map(|_| ())
		}
	}
	impl<T: Config> CheckWeight<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		fn check_extrinsic_weight(info: &DispatchInfo) -> Result<(), TransactionValidityError> {
			match T::BlockWeights::get().get(info.class).max_extrinsic {
				Some(m) if info.weight.any_gt(m) => Err(InvalidTransaction::ExhaustsResources.into()),
				_ => Ok(()),
			}
		}
		fn check_block_length(info: &DispatchInfo, len: usize) -> Result<u32, TransactionValidityError> {
			let limit = T::BlockLength::get();
			let next = AllExtrinsicsLen::<T>::get().unwrap_or_default().saturating_add(len as u32);
			if next > *limit.max.get(info.class) {
				Err(InvalidTransaction::ExhaustsResources.into())
			} else {
				Ok(next)
			}
		}
		fn do_validate(info: &DispatchInfo, len: usize) -> TransactionValidity {
			Self::check_block_length(info, len)?;
			Self::check_extrinsic_weight(info)?;
			Ok(Default::default())
		}
		pub fn do_pre_dispatch(info: &DispatchInfo, len: usize) -> Result<(), TransactionValidityError> {
			let next_len = Self::check_block_length(info, len)?;
			let next_weight = limits::calculate_consumed_weight(&T::BlockWeights::get(), BlockWeight::<T>::get(), info)?;
			Self::check_extrinsic_weight(info)?;
			AllExtrinsicsLen::<T>::put(next_len);
			BlockWeight::<T>::put(next_weight);
			Ok(())
		}
	}
	impl<T: Config + Send + Sync> SignedExtension for CheckWeight<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		const IDENTIFIER: &'static str = "CheckWeight";
		type AccountId = T::AccountId;
		type Call = T::RuntimeCall;
		type AdditionalSigned = ();
		type Pre = ();
		fn additional_signed(&self) -> Result<(), TransactionValidityError> {
			Ok(())
		}
		fn pre_dispatch(self, _: &T::AccountId, _: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
			Self::do_pre_dispatch(i, l)
		}
		fn validate(&self, _: &T::AccountId, _: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> TransactionValidity {
			Self::do_validate(i, l)
		}
		fn pre_dispatch_unsigned(_: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> Result<(), TransactionValidityError> {
			Self::do_pre_dispatch(i, l)
		}
		fn validate_unsigned(_: &Self::Call, i: &DispatchInfoOf<Self::Call>, l: usize) -> TransactionValidity {
			Self::do_validate(i, l)
		}
		fn post_dispatch(_: Option<()>, info: &DispatchInfoOf<Self::Call>, post: &PostDispatchInfoOf<Self::Call>, _: usize, _: &DispatchResult) -> Result<(), TransactionValidityError> {
			let unspent = post.calc_unspent(info);
			if !unspent.is_zero() {
				BlockWeight::<T>::mutate(|c| c.reduce(unspent, info.class));
			}
			Ok(())
		}
	}
}
