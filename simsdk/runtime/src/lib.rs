//! The Frequency runtime of /repo (generated by build.rs from its source) with the simulator's runtime-API client.
#![recursion_limit = "512"]
#![allow(clippy::all)]
#![allow(unused)]
#![allow(deprecated)]

pub const RUNTIME_API_VERSIONS: sp_version::ApisVec = &[];
pub type RuntimeTask = ();

include!(concat!(env!("OUT_DIR"), "/runtime.rs"));

/// Where the client finds the state of a block.
pub trait StateSource: Send + Sync {
	fn state_at(&self, at: Hash) -> Option<std::sync::Arc<simsdk::storage::State>>;
}
/// The client side of the runtime APIs.
#[derive(Clone)]
pub struct SimRuntimeApi(pub std::sync::Arc<dyn StateSource>);
impl SimRuntimeApi {
	pub fn run_at<R>(&self, at: Hash, f: impl FnOnce() -> R) -> Result<R, sp_api::ApiError> {
		let s = self.0.state_at(at).ok_or_else(|| sp_api::ApiError::UnknownBlock(format!("{:?}", at)))?;
		std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simsdk::storage::query(&s, f)))
			.map_err(|_| sp_api::ApiError::Application("runtime panicked".into()))
	}
}

thread_local! { static MAX_SIGS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// Capacity of the signature registry; 0 is the runtime's own. Returns what is in force.
pub fn set_max_sigs(n: u32) -> u32 {
	MAX_SIGS.with(|m| m.set(n));
	<<Runtime as pallet_msa::Config>::MaxSignaturesStored as simsdk::sp_core::Get<Option<u32>>>::get().unwrap_or(0)
}
pub struct SimMaxSigs<T>(std::marker::PhantomData<T>);
impl<T: simsdk::sp_core::Get<Option<u32>>> simsdk::sp_core::Get<Option<u32>> for SimMaxSigs<T> {
	fn get() -> Option<u32> {
		match MAX_SIGS.with(|m| m.get()) {
			0 => T::get(),
			n => Some(n),
		}
	}
}
