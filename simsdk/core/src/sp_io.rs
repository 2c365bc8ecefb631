//! `sp_io`: host functions.
pub use crate::hashing;
pub mod storage {
	pub use crate::storage::{commit_transaction, exists, next_key, rollback_transaction, start_transaction};
	use crate::storage as s;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		s::get(k)
	}
	pub fn set(k: &[u8], v: &[u8]) {
		s::set(k, v)
	}
	pub fn clear(k: &[u8]) {
		s::clear(k)
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> s::ClearResult {
		s::clear_prefix(p, limit)
	}
}
pub mod default_child_storage {
	use crate::storage as s;
	pub fn get(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		s::child_get(c, k)
	}
	pub fn set(c: &[u8], k: &[u8], v: &[u8]) {
		s::child_set(c, k, v)
	}
	pub fn clear(c: &[u8], k: &[u8]) {
		s::child_clear(c, k)
	}
	pub fn exists(c: &[u8], k: &[u8]) -> bool {
		s::child_get(c, k).is_some()
	}
	pub fn next_key(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		s::child_next_key(c, k)
	}
}
pub mod offchain_index {
	pub fn set(k: &[u8], v: &[u8]) {
		crate::storage::index_set(k, v)
	}
	pub fn clear(k: &[u8]) {
		crate::storage::index_clear(k)
	}
}
/// The environment of one off-chain worker run. Every call is a scheduling point of the simulator.
pub mod offchain {
	use crate::sp_core::offchain::*;
	use std::cell::RefCell;
	use std::rc::Rc;
	pub trait OffchainHost {
		fn get(&self, kind: StorageKind, key: &[u8]) -> Option<Vec<u8>>;
		fn set(&self, kind: StorageKind, key: &[u8], v: &[u8]);
		fn clear(&self, kind: StorageKind, key: &[u8]);
		fn cas(&self, kind: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool;
		fn timestamp(&self) -> Timestamp;
		fn sleep_until(&self, t: Timestamp);
		fn http_start(&self, method: &str, uri: &str) -> Result<HttpRequestId, ()>;
		fn http_header(&self, id: HttpRequestId, n: &str, v: &str) -> Result<(), ()>;
		fn http_write(&self, id: HttpRequestId, chunk: &[u8], d: Option<Timestamp>) -> Result<(), HttpError>;
		fn http_wait(&self, ids: &[HttpRequestId], d: Option<Timestamp>) -> Vec<HttpRequestStatus>;
		fn http_read(&self, id: HttpRequestId, buf: &mut [u8], d: Option<Timestamp>) -> Result<u32, HttpError>;
	}
	thread_local! { static HOST: RefCell<Option<Rc<dyn OffchainHost>>> = const { RefCell::new(None) }; }
	pub fn with_host<R>(h: Rc<dyn OffchainHost>, f: impl FnOnce() -> R) -> R {
		struct G(Option<Rc<dyn OffchainHost>>);
		impl Drop for G {
			fn drop(&mut self) {
				let o = self.0.take();
				HOST.with(|h| *h.borrow_mut() = o);
			}
		}
		let _g = G(HOST.with(|x| x.borrow_mut().replace(h)));
		f()
	}
	fn host() -> Rc<dyn OffchainHost> {
		HOST.with(|h| h.borrow().clone()).expect("off-chain host functions are available to off-chain workers only")
	}
	pub fn is_validator() -> bool {
		true
	}
	pub fn timestamp() -> Timestamp {
		host().timestamp()
	}
	pub fn sleep_until(t: Timestamp) {
		host().sleep_until(t)
	}
	pub fn local_storage_get(k: StorageKind, key: &[u8]) -> Option<Vec<u8>> {
		host().get(k, key)
	}
	pub fn local_storage_set(k: StorageKind, key: &[u8], v: &[u8]) {
		host().set(k, key, v)
	}
	pub fn local_storage_clear(k: StorageKind, key: &[u8]) {
		host().clear(k, key)
	}
	pub fn local_storage_compare_and_set(k: StorageKind, key: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		host().cas(k, key, old, new)
	}
	pub fn http_request_start(m: &str, u: &str, _meta: &[u8]) -> Result<HttpRequestId, ()> {
		host().http_start(m, u)
	}
	pub fn http_request_add_header(id: HttpRequestId, n: &str, v: &str) -> Result<(), ()> {
		host().http_header(id, n, v)
	}
	pub fn http_request_write_body(id: HttpRequestId, c: &[u8], d: Option<Timestamp>) -> Result<(), HttpError> {
		host().http_write(id, c, d)
	}
	pub fn http_response_wait(ids: &[HttpRequestId], d: Option<Timestamp>) -> Vec<HttpRequestStatus> {
		host().http_wait(ids, d)
	}
	pub fn http_response_read_body(id: HttpRequestId, b: &mut [u8], d: Option<Timestamp>) -> Result<u32, HttpError> {
		host().http_read(id, b, d)
	}
}
/// A stand-alone externalities environment for unit tests and simple drivers.
pub struct TestExternalities {
	pub state: std::sync::Arc<crate::storage::State>,
}
impl Default for TestExternalities {
	fn default() -> Self {
		TestExternalities { state: Default::default() }
	}
}
impl From<crate::sp_core::storage::Storage> for TestExternalities {
	fn from(s: crate::sp_core::storage::Storage) -> Self {
		TestExternalities { state: std::sync::Arc::new(s.state) }
	}
}
impl TestExternalities {
	pub fn new(s: crate::sp_core::storage::Storage) -> Self {
		s.into()
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let (r, ext) = crate::storage::run(crate::storage::Ext::new(self.state.clone()), f);
		let mut s = (*self.state).clone();
		s.apply(&ext.overlay);
		self.state = std::sync::Arc::new(s);
		r
	}
}
