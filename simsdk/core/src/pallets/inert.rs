//! Pallets of the runtime that no property depends on: present with their place in the runtime, without behaviour.
macro_rules! inert {
	($m:ident { $($call:ident = $i:literal),* } [$($wf:ident ( $($a:ident),* )),*]) => {
		pub mod $m {
			use crate::codec::{self, *};
			use crate::frame_support::pallet_prelude::*;
			use crate::frame_support::traits::*;
			use crate::frame_support::{self};
			use crate::frame_system::{self, pallet_prelude::*};
			use crate::scale_info::{self, TypeInfo};
			pub use pallet::*;
			pub use inert_weights::WeightInfo;
			use std::marker::PhantomData;
			pub mod inert_weights {
				pub trait WeightInfo { $( fn $wf($($a: u32),*) -> crate::sp_weights::Weight; )* }
			}
			#[crate::macros::pallet]
			pub mod pallet {
				use super::*;
				#[pallet::pallet]
				pub struct Pallet<T>(_);
				#[pallet::config]
				pub trait Config: frame_system::Config {}
				#[pallet::genesis_config]
				#[derive(crate::macros::DefaultNoBound)]
				pub struct GenesisConfig<T: Config> {
					pub _config: PhantomData<T>,
				}
				#[pallet::genesis_build]
				impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
					fn build(&self) {}
				}
				#[pallet::event]
				pub enum Event<T: Config> {
					Inert,
					#[allow(missing_docs)]
					InertFor { account: T::AccountId },
				}
				#[pallet::call]
				impl<T: Config> Pallet<T> {
					$(
					#[pallet::call_index($i)]
					#[pallet::weight(Weight::from_parts(10_000_000, 1000))]
					pub fn $call(origin: OriginFor<T>, arg: u32) -> DispatchResult {
						let _ = (ensure_signed(origin)?, arg);
						Ok(())
					}
					)*
				}
				#[pallet::hooks]
				impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
			}
			impl<T: frame_system::Config> Config for T {}
		}
	};
}
inert!(session_inner { set_keys = 0, purge_keys = 1 } [set_keys(), purge_keys()]);
pub mod session {
	pub use super::session_inner::*;
	#[derive(Clone, PartialEq, Eq, Debug, crate::macros::Encode, crate::macros::Decode, crate::macros::TypeInfo)]
	pub enum Event {
		NewSession { session_index: u32 },
	}
}
inert!(authorship {} []);
inert!(aura {} []);
inert!(aura_ext {} []);
inert!(parachain_info {} []);
