//! `sp_runtime::offchain`: storage references, storage locks and HTTP, over the simulated host.
pub use crate::sp_core::offchain::{Duration, HttpError, HttpRequestId, HttpRequestStatus, StorageKind, Timestamp, STORAGE_PREFIX};
pub use crate::sp_io::offchain as host;

pub mod storage {
	use super::*;
	use crate::codec::{Decode, Encode};
	#[derive(Debug, PartialEq, Eq, Clone)]
	pub enum StorageRetrievalError {
		Undecodable,
	}
	#[derive(Debug, PartialEq, Eq)]
	pub enum MutateStorageError<T, E> {
		ConcurrentModification(T),
		ValueFunctionFailed(E),
	}
	#[derive(Clone)]
	pub struct StorageValueRef<'a> {
		key: &'a [u8],
		kind: StorageKind,
	}
	impl<'a> StorageValueRef<'a> {
		pub fn persistent(key: &'a [u8]) -> Self {
			Self { key, kind: StorageKind::PERSISTENT }
		}
		pub fn local(key: &'a [u8]) -> Self {
			Self { key, kind: StorageKind::LOCAL }
		}
		pub fn set(&self, value: &impl Encode) {
			value.using_encoded(|v| host::local_storage_set(self.kind, self.key, v))
		}
		pub fn clear(&mut self) {
			host::local_storage_clear(self.kind, self.key)
		}
		pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
			host::local_storage_get(self.kind, self.key)
				.map(|v| T::decode(&mut &v[..]).map_err(|_| StorageRetrievalError::Undecodable))
				.transpose()
		}
		pub fn mutate<T, E, F>(&self, f: F) -> Result<T, MutateStorageError<T, E>>
		where
			T: crate::codec::Codec,
			F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>,
		{
			let value = host::local_storage_get(self.kind, self.key);
			let decoded = value.as_deref().map(|mut b| T::decode(&mut b).map_err(|_| StorageRetrievalError::Undecodable)).transpose();
			let val = f(decoded).map_err(MutateStorageError::ValueFunctionFailed)?;
			let set = val.using_encoded(|n| host::local_storage_compare_and_set(self.kind, self.key, value, n));
			if set {
				Ok(val)
			} else {
				Err(MutateStorageError::ConcurrentModification(val))
			}
		}
	}
}

pub mod storage_lock {
	use super::storage::{MutateStorageError, StorageRetrievalError, StorageValueRef};
	use super::*;
	use crate::codec::{self, Codec, Decode, Encode};
	use crate::sp_runtime::traits::BlockNumberProvider;
	const EXPIRY: Duration = Duration::from_millis(20_000);
	const BLOCKS: u32 = 4;
	const SNOOZE_MIN: Duration = Duration::from_millis(10);
	const SNOOZE_MAX: Duration = Duration::from_millis(100);

	pub trait Lockable: Sized {
		type Deadline: Sized + Codec + Clone;
		fn deadline(&self) -> Self::Deadline;
		fn has_expired(deadline: &Self::Deadline) -> bool;
		fn snooze(_deadline: &Self::Deadline) {
			host::sleep_until(host::timestamp().add(SNOOZE_MAX));
		}
	}
	#[derive(Encode, Decode)]
	pub struct Time {
		expiration_duration: Duration,
	}
	impl Default for Time {
		fn default() -> Self {
			Self { expiration_duration: EXPIRY }
		}
	}
	fn nap(deadline: &Timestamp) {
		let now = host::timestamp();
		let rem = now.diff(deadline);
		let d = rem.max(SNOOZE_MIN).min(SNOOZE_MAX);
		host::sleep_until(now.add(d));
	}
	impl Lockable for Time {
		type Deadline = Timestamp;
		fn deadline(&self) -> Timestamp {
			host::timestamp().add(self.expiration_duration)
		}
		fn has_expired(d: &Timestamp) -> bool {
			host::timestamp() > *d
		}
		fn snooze(d: &Timestamp) {
			nap(d)
		}
	}
	#[derive(Encode, Decode, Eq, PartialEq, Debug, Clone)]
	pub struct BlockAndTimeDeadline<N: Codec> {
		pub block_number: N,
		pub timestamp: Timestamp,
	}
	pub struct BlockAndTime<B: BlockNumberProvider> {
		expiration_block_number_offset: u32,
		expiration_duration: Duration,
		_p: std::marker::PhantomData<B>,
	}
	impl<B: BlockNumberProvider> Default for BlockAndTime<B> {
		fn default() -> Self {
			Self { expiration_block_number_offset: BLOCKS, expiration_duration: EXPIRY, _p: Default::default() }
		}
	}
	impl<B: BlockNumberProvider> Lockable for BlockAndTime<B> {
		type Deadline = BlockAndTimeDeadline<B::BlockNumber>;
		fn deadline(&self) -> Self::Deadline {
			let block_number = B::current_block_number() + self.expiration_block_number_offset.into();
			BlockAndTimeDeadline { block_number, timestamp: host::timestamp().add(self.expiration_duration) }
		}
		fn has_expired(d: &Self::Deadline) -> bool {
			host::timestamp() > d.timestamp && B::current_block_number() > d.block_number
		}
		fn snooze(d: &Self::Deadline) {
			nap(&d.timestamp)
		}
	}
	pub struct StorageLock<'a, L: Lockable = Time> {
		value_ref: StorageValueRef<'a>,
		lockable: L,
	}
	impl<'a, L: Lockable + Default> StorageLock<'a, L> {
		pub fn new(key: &'a [u8]) -> Self {
			Self::with_lockable(key, Default::default())
		}
	}
	impl<'a, L: Lockable> StorageLock<'a, L> {
		pub fn with_lockable(key: &'a [u8], lockable: L) -> Self {
			Self { value_ref: StorageValueRef::persistent(key), lockable }
		}
		fn extend_active_lock(&mut self) -> Result<L::Deadline, ()> {
			let r = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| -> Result<L::Deadline, ()> {
				match s {
					Ok(Some(d)) if !L::has_expired(&d) => Ok(self.lockable.deadline()),
					_ => Err(()),
				}
			});
			match r {
				Ok(d) => Ok(d),
				Err(MutateStorageError::ConcurrentModification(_)) => Err(()),
				Err(MutateStorageError::ValueFunctionFailed(e)) => Err(e),
			}
		}
		fn try_lock_inner(&mut self, new: L::Deadline) -> Result<(), L::Deadline> {
			let r = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| -> Result<L::Deadline, L::Deadline> {
				match s {
					Ok(Some(d)) if !L::has_expired(&d) => Err(d),
					_ => Ok(new),
				}
			});
			match r {
				Ok(_) => Ok(()),
				Err(MutateStorageError::ConcurrentModification(d)) => Err(d),
				Err(MutateStorageError::ValueFunctionFailed(e)) => Err(e),
			}
		}
		pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, L::Deadline> {
			let d = self.lockable.deadline();
			self.try_lock_inner(d)?;
			Ok(StorageLockGuard { lock: Some(self) })
		}
		pub fn spin_lock(&mut self) -> StorageLockGuard<'a, '_, L> {
			let mut d = self.lockable.deadline();
			while let Err(old) = self.try_lock_inner(d) {
				L::snooze(&old);
				d = self.lockable.deadline();
			}
			StorageLockGuard { lock: Some(self) }
		}
		pub fn lock(&mut self) -> StorageLockGuard<'a, '_, L> {
			self.spin_lock()
		}
		fn unlock(&mut self) {
			self.value_ref.clear();
		}
	}
	pub struct StorageLockGuard<'a, 'b, L: Lockable> {
		lock: Option<&'b mut StorageLock<'a, L>>,
	}
	impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> {
		pub fn forget(mut self) {
			let _ = self.lock.take();
		}
		pub fn extend_lock(&mut self) -> Result<L::Deadline, ()> {
			match self.lock {
				Some(ref mut l) => l.extend_active_lock(),
				None => Err(()),
			}
		}
	}
	impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> {
		fn drop(&mut self) {
			if let Some(l) = self.lock.take() {
				l.unlock();
			}
		}
	}
	impl<'a> StorageLock<'a, Time> {
		pub fn with_deadline(key: &'a [u8], d: Duration) -> Self {
			Self::with_lockable(key, Time { expiration_duration: d })
		}
	}
	impl<'a, B: BlockNumberProvider> StorageLock<'a, BlockAndTime<B>> {
		pub fn with_block_and_time_deadline(key: &'a [u8], offset: u32, d: Duration) -> Self {
			Self::with_lockable(key, BlockAndTime { expiration_block_number_offset: offset, expiration_duration: d, _p: Default::default() })
		}
		pub fn with_block_deadline(key: &'a [u8], offset: u32) -> Self {
			Self::with_lockable(key, BlockAndTime { expiration_block_number_offset: offset, ..Default::default() })
		}
	}
}

pub mod http {
	use super::*;
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Method {
		Get,
		Post,
		Other(&'static str),
	}
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub enum Error {
		DeadlineReached,
		IoError,
		Unknown,
	}
	#[derive(Clone, Debug)]
	pub struct Request<'a, T = Vec<&'static [u8]>> {
		pub method: Method,
		pub url: &'a str,
		pub body: T,
		pub deadline: Option<Timestamp>,
		headers: Vec<(String, String)>,
	}
	impl<'a, T> Request<'a, T> {
		pub fn post(url: &'a str, body: T) -> Self {
			Request { method: Method::Post, url, body, deadline: None, headers: vec![] }
		}
		pub fn deadline(mut self, d: Timestamp) -> Self {
			self.deadline = Some(d);
			self
		}
		pub fn add_header(mut self, n: &str, v: &str) -> Self {
			self.headers.push((n.into(), v.into()));
			self
		}
		pub fn method(mut self, m: Method) -> Self {
			self.method = m;
			self
		}
	}
	impl<'a> Request<'a> {
		pub fn get(url: &'a str) -> Self {
			Request { method: Method::Get, url, body: vec![], deadline: None, headers: vec![] }
		}
	}
	impl<'a, I: AsRef<[u8]>, T: IntoIterator<Item = I>> Request<'a, T> {
		pub fn send(self) -> Result<PendingRequest, HttpError> {
			let m = match self.method {
				Method::Get => "GET",
				Method::Post => "POST",
				Method::Other(o) => o,
			};
			let id = host::http_request_start(m, self.url, &[]).map_err(|_| HttpError::IoError)?;
			for (n, v) in &self.headers {
				host::http_request_add_header(id, n, v).map_err(|_| HttpError::IoError)?;
			}
			for c in self.body {
				host::http_request_write_body(id, c.as_ref(), self.deadline)?;
			}
			host::http_request_write_body(id, &[], self.deadline)?;
			Ok(PendingRequest { id })
		}
	}
	#[derive(PartialEq, Eq, Debug)]
	pub struct PendingRequest {
		pub id: HttpRequestId,
	}
	pub type HttpResult = Result<Response, Error>;
	impl PendingRequest {
		pub fn wait(self) -> HttpResult {
			match self.try_wait(None) {
				Ok(r) => r,
				Err(_) => Err(Error::DeadlineReached),
			}
		}
		pub fn try_wait(self, deadline: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> {
			match host::http_response_wait(&[self.id], deadline.into()).first() {
				Some(HttpRequestStatus::DeadlineReached) => Err(self),
				Some(HttpRequestStatus::IoError) => Ok(Err(Error::IoError)),
				Some(HttpRequestStatus::Finished(code)) => Ok(Ok(Response { id: self.id, code: *code })),
				_ => Ok(Err(Error::Unknown)),
			}
		}
	}
	#[derive(Debug)]
	pub struct Response {
		pub id: HttpRequestId,
		pub code: u16,
	}
	impl Response {
		pub fn body(&self) -> ResponseBody {
			ResponseBody { id: self.id, error: None, buffer: [0; 4096], filled_up_to: None, position: 0, deadline: None }
		}
	}
	#[derive(Clone)]
	pub struct ResponseBody {
		id: HttpRequestId,
		error: Option<HttpError>,
		buffer: [u8; 4096],
		filled_up_to: Option<usize>,
		position: usize,
		deadline: Option<Timestamp>,
	}
	impl ResponseBody {
		pub fn deadline(&mut self, d: impl Into<Option<Timestamp>>) {
			self.deadline = d.into();
			self.error = None;
		}
		pub fn error(&self) -> &Option<HttpError> {
			&self.error
		}
	}
	impl Iterator for ResponseBody {
		type Item = u8;
		fn next(&mut self) -> Option<u8> {
			if self.error.is_some() {
				return None
			}
			if self.filled_up_to.is_none() {
				match host::http_response_read_body(self.id, &mut self.buffer, self.deadline) {
					Err(e) => {
						self.error = Some(e);
						return None
					},
					Ok(0) => return None,
					Ok(n) => {
						self.position = 0;
						self.filled_up_to = Some(n as usize);
					},
				}
			}
			if Some(self.position) == self.filled_up_to {
				self.filled_up_to = None;
				return self.next()
			}
			self.position += 1;
			Some(self.buffer[self.position - 1])
		}
	}
}
