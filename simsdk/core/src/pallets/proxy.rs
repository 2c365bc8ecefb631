//! `pallet_proxy`: proxies without deposits bookkeeping (announcements are not implemented).
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{Dispatchable, StaticLookup, Zero};
use crate::sp_runtime::DispatchError;
pub use pallet::*;
use std::marker::PhantomData;
type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn proxy(p: u32) -> Weight;
		fn proxy_announced(a: u32, p: u32) -> Weight;
		fn remove_announcement(a: u32, p: u32) -> Weight;
		fn reject_announcement(a: u32, p: u32) -> Weight;
		fn announce(a: u32, p: u32) -> Weight;
		fn add_proxy(p: u32) -> Weight;
		fn remove_proxy(p: u32) -> Weight;
		fn remove_proxies(p: u32) -> Weight;
		fn create_pure(p: u32) -> Weight;
		fn kill_pure(p: u32) -> Weight;
	}
	impl WeightInfo for () {
		fn proxy(_: u32) -> Weight { Weight::from_parts(20_000_000, 0) }
		fn proxy_announced(_: u32, _: u32) -> Weight { Weight::from_parts(40_000_000, 0) }
		fn remove_announcement(_: u32, _: u32) -> Weight { Weight::from_parts(25_000_000, 0) }
		fn reject_announcement(_: u32, _: u32) -> Weight { Weight::from_parts(25_000_000, 0) }
		fn announce(_: u32, _: u32) -> Weight { Weight::from_parts(35_000_000, 0) }
		fn add_proxy(_: u32) -> Weight { Weight::from_parts(25_000_000, 0) }
		fn remove_proxy(_: u32) -> Weight { Weight::from_parts(25_000_000, 0) }
		fn remove_proxies(_: u32) -> Weight { Weight::from_parts(22_000_000, 0) }
		fn create_pure(_: u32) -> Weight { Weight::from_parts(27_000_000, 0) }
		fn kill_pure(_: u32) -> Weight { Weight::from_parts(23_000_000, 0) }
	}
}
pub use weights::WeightInfo;
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ProxyDefinition<AccountId, ProxyType, BlockNumber> {
	pub delegate: AccountId,
	pub proxy_type: ProxyType,
	pub delay: BlockNumber,
}
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>
			+ IsSubType<Call<Self>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency;
		type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
		type ProxyDepositBase;
		type ProxyDepositFactor;
		type MaxProxies: Get<u32>;
		type MaxPending: Get<u32>;
		type CallHasher;
		type AnnouncementDepositBase;
		type AnnouncementDepositFactor;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	pub type Proxies<T: Config> = StorageMap<
		_,
		Twox64Concat,
		T::AccountId,
		BoundedVec<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, T::MaxProxies>,
		ValueQuery,
	>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		ProxyExecuted { result: DispatchResult },
		ProxyAdded { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> },
		ProxyRemoved { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooMany,
		NotFound,
		NotProxy,
		Unproxyable,
		Duplicate,
		NoPermission,
		Unannounced,
		NoSelfProxy,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::proxy(T::MaxProxies::get()).saturating_add(d.weight), d.class) })]
		pub fn proxy(origin: OriginFor<T>, real: AccountIdLookupOf<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			let def = Self::find_proxy(&real, &who, force_proxy_type)?;
			ensure!(def.delay.is_zero(), Error::<T>::Unannounced);
			Self::do_proxy(def, real, *call);
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::add_proxy(T::MaxProxies::get()))]
		pub fn add_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			ensure!(who != delegate, Error::<T>::NoSelfProxy);
			Proxies::<T>::try_mutate(&who, |p| -> DispatchResult {
				let def = ProxyDefinition { delegate: delegate.clone(), proxy_type: proxy_type.clone(), delay };
				let key = |d: &ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>| (d.delegate.clone(), d.proxy_type.clone(), d.delay);
				let i = p.binary_search_by(|x| key(x).cmp(&key(&def))).err().ok_or(Error::<T>::Duplicate)?;
				p.try_insert(i, def).map_err(|_| Error::<T>::TooMany)?;
				Ok(())
			})?;
			Self::deposit_event(Event::ProxyAdded { delegator: who, delegatee: delegate, proxy_type, delay });
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::remove_proxy(T::MaxProxies::get()))]
		pub fn remove_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			Proxies::<T>::try_mutate_exists(&who, |x| -> DispatchResult {
				let mut p = x.take().ok_or(Error::<T>::NotFound)?;
				let n = p.len();
				p.retain(|d| !(d.delegate == delegate && d.proxy_type == proxy_type && d.delay == delay));
				ensure!(p.len() < n, Error::<T>::NotFound);
				if !p.is_empty() {
					*x = Some(p);
				}
				Ok(())
			})?;
			Self::deposit_event(Event::ProxyRemoved { delegator: who, delegatee: delegate, proxy_type, delay });
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::remove_proxies(T::MaxProxies::get()))]
		pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Proxies::<T>::remove(&who);
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::reject_announcement(T::MaxPending::get(), T::MaxProxies::get()))]
		pub fn reject_announcement(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, call_hash: crate::sp_core::H256) -> DispatchResult {
			let _ = (ensure_signed(origin)?, delegate, call_hash);
			Err(Error::<T>::NotFound.into())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
}
impl<T: Config> Pallet<T> {
	pub fn find_proxy(
		real: &T::AccountId,
		delegate: &T::AccountId,
		force: Option<T::ProxyType>,
	) -> Result<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, DispatchError> {
		Ok(Proxies::<T>::get(real)
			.into_iter()
			.find(|x| &x.delegate == delegate && force.as_ref().map_or(true, |y| &x.proxy_type == y))
			.ok_or(Error::<T>::NotProxy)?)
	}
	fn do_proxy(def: ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, real: T::AccountId, call: <T as Config>::RuntimeCall) {
		let mut origin: T::RuntimeOrigin = frame_system::RawOrigin::Signed(real).into();
		origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
			let c = <T as Config>::RuntimeCall::from_ref(c);
			match c.is_sub_type() {
				Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. }) if !def.proxy_type.is_superset(proxy_type) => false,
				Some(Call::remove_proxies { .. }) if def.proxy_type != T::ProxyType::default() => false,
				_ => def.proxy_type.filter(c),
			}
		});
		let e = call.dispatch(origin);
		Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
	}
}
