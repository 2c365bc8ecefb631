//! `pallet_timestamp`
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{AtLeast32Bit, Zero};
pub use pallet::*;
use std::marker::PhantomData;
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn set() -> Weight;
		fn on_finalize() -> Weight;
	}
	impl WeightInfo for () {
		fn set() -> Weight { Weight::from_parts(9_000_000, 0) }
		fn on_finalize() -> Weight { Weight::from_parts(3_000_000, 0) }
	}
}
pub use weights::WeightInfo;
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Copy + MaxEncodedLen + HasCompact;
		type OnTimestampSet;
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	#[pallet::getter(fn now)]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::storage]
	pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((T::WeightInfo::set(), DispatchClass::Mandatory))]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
			ensure_none(origin)?;
			assert!(!DidUpdate::<T>::exists(), "Timestamp must be updated only once in the block");
			let prev = Now::<T>::get();
			assert!(prev.is_zero() || now >= prev + T::MinimumPeriod::get(), "Timestamp must increment by at least <MinimumPeriod> between sequential blocks");
			Now::<T>::put(now);
			DidUpdate::<T>::put(true);
			Ok(())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(_n: BlockNumberFor<T>) -> Weight {
			T::WeightInfo::on_finalize()
		}
		fn on_finalize(_n: BlockNumberFor<T>) {
			assert!(DidUpdate::<T>::take(), "Timestamp must be updated once in the block");
		}
	}
}
