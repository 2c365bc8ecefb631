//! `cumulus_pallet_parachain_system`: the relay-chain parent number, set once per block by an inherent.
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{BlockNumberProvider, ValidateUnsigned};
pub use pallet::*;
use std::marker::PhantomData;
pub struct RelayNumberMonotonicallyIncreases;
pub struct ParachainSetCode<T>(PhantomData<T>);
impl<T: frame_system::Config> frame_system::SetCode<T> for ParachainSetCode<T> {}
pub struct RelaychainDataProvider<T>(PhantomData<T>);
impl<T: Config> BlockNumberProvider for RelaychainDataProvider<T> {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		ValidationData::<T>::get().unwrap_or_else(LastRelayChainBlockNumber::<T>::get)
	}
}
#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::storage]
	pub type ValidationData<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type LastRelayChainBlockNumber<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::genesis_config]
	#[derive(crate::macros::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::event]
	pub enum Event<T: Config> {
		ValidationFunctionStored,
		#[allow(missing_docs)]
		DownwardMessagesReceived { count: u32 },
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::zero(), DispatchClass::Mandatory))]
		pub fn set_validation_data(origin: OriginFor<T>, relay_parent_number: u32) -> DispatchResultWithPostInfo {
			ensure_none(origin)?;
			assert!(!ValidationData::<T>::exists(), "ValidationData must be updated only once in a block");
			assert!(relay_parent_number >= LastRelayChainBlockNumber::<T>::get(), "Relay chain block number needs to monotonically increase between Parachain blocks!");
			ValidationData::<T>::put(relay_parent_number);
			Ok(().into())
		}
	}
	#[pallet::validate_unsigned]
	impl<T: Config> ValidateUnsigned for Pallet<T> {
		type Call = Call<T>;
		fn validate_unsigned(_s: TransactionSource, c: &Self::Call) -> TransactionValidity {
			if let Call::set_validation_data { .. } = c {
				return Ok(Default::default())
			}
			Err(InvalidTransaction::Call.into())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_initialize(_n: BlockNumberFor<T>) -> Weight {
			ValidationData::<T>::kill();
			Weight::zero()
		}
		fn on_finalize(_n: BlockNumberFor<T>) {
			let v = ValidationData::<T>::get().expect("set_validation_data inherent needs to be present in every block!");
			LastRelayChainBlockNumber::<T>::put(v);
		}
	}
}
impl<T: frame_system::Config> Config for T {}
