//! `pallet_utility`: batching, derivative accounts and origin dispatch.
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{BadOrigin, Dispatchable, Hash};
use crate::sp_runtime::DispatchError;
pub use pallet::*;
use std::marker::PhantomData;
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn batch(c: u32) -> Weight;
		fn as_derivative() -> Weight;
		fn batch_all(c: u32) -> Weight;
		fn dispatch_as() -> Weight;
		fn force_batch(c: u32) -> Weight;
	}
	impl WeightInfo for () {
		fn batch(c: u32) -> Weight {
			Weight::from_parts(6_000_000 + 5_000_000 * c as u64, 0)
		}
		fn as_derivative() -> Weight {
			Weight::from_parts(5_000_000, 0)
		}
		fn batch_all(c: u32) -> Weight {
			Weight::from_parts(6_000_000 + 5_000_000 * c as u64, 0)
		}
		fn dispatch_as() -> Weight {
			Weight::from_parts(9_000_000, 0)
		}
		fn force_batch(c: u32) -> Weight {
			Weight::from_parts(6_000_000 + 5_000_000 * c as u64, 0)
		}
	}
}
pub use weights::WeightInfo;
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>
			+ UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>
			+ IsSubType<Call<Self>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		BatchCompletedWithErrors,
		ItemCompleted,
		ItemFailed { error: DispatchError },
		DispatchedAs { result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	fn total<C: GetDispatchInfo>(calls: &[C]) -> (Weight, DispatchClass) {
		let infos: Vec<_> = calls.iter().map(|c| c.get_dispatch_info()).collect();
		let w = infos.iter().map(|d| d.weight).fold(Weight::zero(), |a, b| a.saturating_add(b));
		let class = if infos.iter().all(|d| d.class == DispatchClass::Operational) { DispatchClass::Operational } else { DispatchClass::Normal };
		(w, class)
	}
	pub const BATCHED_CALLS_LIMIT: usize = 10922;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let (w, c) = total(&calls[..]); (w.saturating_add(T::WeightInfo::batch(calls.len() as u32)), c) })]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			ensure!(calls.len() <= BATCHED_CALLS_LIMIT, Error::<T>::TooManyCalls);
			let len = calls.len();
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				if let Err(e) = result {
					Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
					let base = T::WeightInfo::batch(index.saturating_add(1) as u32);
					return Ok(Some(base + weight).into())
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			let base = T::WeightInfo::batch(len as u32);
			Ok(Some(base + weight).into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::as_derivative().saturating_add(d.weight), d.class) })]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let mut origin = origin;
			let who = ensure_signed(origin.clone())?;
			let pseudonym = derivative_account_id::<T>(who, index);
			origin.set_caller_from(frame_system::RawOrigin::Signed(pseudonym));
			let info = call.get_dispatch_info();
			let result = call.dispatch(origin);
			let mut weight = T::WeightInfo::as_derivative();
			weight = weight.saturating_add(extract_actual_weight(&result, &info));
			result
				.map_err(|mut err| {
					err.post_info = Some(weight).into();
					err
				})
				.map(|_| Some(weight).into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight({ let (w, c) = total(&calls[..]); (w.saturating_add(T::WeightInfo::batch_all(calls.len() as u32)), c) })]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			ensure!(calls.len() <= BATCHED_CALLS_LIMIT, Error::<T>::TooManyCalls);
			let len = calls.len();
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let result = if is_root {
					call.dispatch_bypass_filter(origin.clone())
				} else {
					let mut filtered = origin.clone();
					filtered.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
						let c = <T as Config>::RuntimeCall::from_ref(c);
						!matches!(c.is_sub_type(), Some(Call::batch_all { .. }))
					});
					call.dispatch(filtered)
				};
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				result.map_err(|mut err| {
					let base = T::WeightInfo::batch_all(index.saturating_add(1) as u32);
					err.post_info = Some(base + weight).into();
					err
				})?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			let base = T::WeightInfo::batch_all(len as u32);
			Ok(Some(base.saturating_add(weight)).into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::dispatch_as().saturating_add(d.weight), d.class) })]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Box<T::PalletsOrigin>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure_root(origin)?;
			let res = call.dispatch_bypass_filter((*as_origin).into());
			Self::deposit_event(Event::DispatchedAs { result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight({ let (w, c) = total(&calls[..]); (w.saturating_add(T::WeightInfo::force_batch(calls.len() as u32)), c) })]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			ensure!(calls.len() <= BATCHED_CALLS_LIMIT, Error::<T>::TooManyCalls);
			let len = calls.len();
			let mut weight = Weight::zero();
			let mut has_error = false;
			for call in calls.into_iter() {
				let info = call.get_dispatch_info();
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				if let Err(e) = result {
					has_error = true;
					Self::deposit_event(Event::ItemFailed { error: e.error });
				} else {
					Self::deposit_event(Event::ItemCompleted);
				}
			}
			Self::deposit_event(if has_error { Event::BatchCompletedWithErrors } else { Event::BatchCompleted });
			let base = T::WeightInfo::batch(len as u32);
			Ok(Some(base.saturating_add(weight)).into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (*weight, d.class) })]
		pub fn with_weight(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>, weight: Weight) -> DispatchResult {
			ensure_root(origin)?;
			let _ = weight;
			let res = call.dispatch_bypass_filter(frame_system::RawOrigin::Root.into());
			res.map(|_| ()).map_err(|e| e.error)
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
}
pub fn derivative_account_id<T: Config>(who: T::AccountId, index: u16) -> T::AccountId {
	let entropy = (b"modlpy/utilisuba", who, index).using_encoded(crate::hashing::blake2_256);
	let mut v = entropy.to_vec();
	v.resize(64, 0);
	Decode::decode(&mut &v[..]).expect("account id")
}
