//! `pallet_sudo`
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::Dispatchable;
pub use pallet::*;
use std::marker::PhantomData;
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn sudo() -> Weight;
		fn sudo_as() -> Weight;
	}
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
	impl<T> WeightInfo for SubstrateWeight<T> {
		fn sudo() -> Weight { Weight::from_parts(9_000_000, 1517) }
		fn sudo_as() -> Weight { Weight::from_parts(9_000_000, 1517) }
	}
	impl WeightInfo for () {
		fn sudo() -> Weight { Weight::from_parts(9_000_000, 1517) }
		fn sudo_as() -> Weight { Weight::from_parts(9_000_000, 1517) }
	}
}
pub use weights::WeightInfo;
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	#[pallet::getter(fn key)]
	pub type Key<T: Config> = StorageValue<_, T::AccountId>;
	#[pallet::genesis_config]
	#[derive(crate::macros::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub key: Option<T::AccountId>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			if let Some(ref k) = self.key {
				Key::<T>::put(k);
			}
		}
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Sudid { sudo_result: DispatchResult },
		KeyChanged { old_sudoer: Option<T::AccountId> },
		SudoAsDone { sudo_result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::sudo().saturating_add(d.weight), d.class) })]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| k == who), Error::<T>::RequireSudo);
			let res = call.dispatch_bypass_filter(frame_system::RawOrigin::Root.into());
			Self::deposit_event(Event::Sudid { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight({ let d = call.get_dispatch_info(); (T::WeightInfo::sudo_as().saturating_add(d.weight), d.class) })]
		pub fn sudo_as(origin: OriginFor<T>, who: <<T as frame_system::Config>::Lookup as crate::sp_runtime::traits::StaticLookup>::Source, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let sender = ensure_signed(origin)?;
			ensure!(Key::<T>::get().map_or(false, |k| k == sender), Error::<T>::RequireSudo);
			let who = <T::Lookup as crate::sp_runtime::traits::StaticLookup>::lookup(who)?;
			// without the base filter, but calls inside this one are filtered again
			let res = call.dispatch_bypass_filter(frame_system::RawOrigin::Signed(who).into());
			Self::deposit_event(Event::SudoAsDone { sudo_result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(Pays::No.into())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
}
