//! `sp_core`
pub use crate::hashing;
pub use crate::hashing::*;
pub use crate::macros::RuntimeDebug;
pub use crate::parameter_types;
use crate::codec::{self, *};
use crate::scale_info::{self, TypeInfo};
pub use bounded::{bounded_btree_map, bounded_btree_set, bounded_vec, TryCollect, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
pub use std::fmt::Debug as DebugTrait;

// ------------------------------------------------------------------------------------------------ Get
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
macro_rules! consts {
	($($n:ident $t:ty),*) => { $(
		#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
		impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
		impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
	)* }
}
consts!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);
pub struct ConstUint<const N: u128>;
impl<const N: u128> Get<u32> for ConstUint<N> {
	fn get() -> u32 {
		N as u32
	}
}

// ------------------------------------------------------------------------------------------------ fixed bytes
pub fn to_hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2 + 2);
	s.push_str("0x");
	for x in b {
		s.push_str(&format!("{:02x}", x));
	}
	s
}
pub fn from_hex(s: &str) -> Result<Vec<u8>, String> {
	let s = s.strip_prefix("0x").unwrap_or(s);
	if s.len() % 2 != 0 || !s.is_ascii() {
		return Err("odd hex".into())
	}
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|e| e.to_string())).collect()
}
macro_rules! fixed {
	($($n:ident $len:expr),*) => { $(
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
		pub struct $n(pub [u8; $len]);
		impl Default for $n { fn default() -> Self { $n([0; $len]) } }
		impl $n {
			pub const fn zero() -> Self { $n([0; $len]) }
			pub fn repeat_byte(b: u8) -> Self { $n([b; $len]) }
			pub fn from_slice(s: &[u8]) -> Self { let mut a = [0; $len]; a.copy_from_slice(s); $n(a) }
			pub fn as_bytes(&self) -> &[u8] { &self.0 }
			pub fn as_fixed_bytes(&self) -> &[u8; $len] { &self.0 }
			pub fn to_fixed_bytes(self) -> [u8; $len] { self.0 }
			pub fn is_zero(&self) -> bool { self.0.iter().all(|x| *x == 0) }
			pub fn from_low_u64_be(v: u64) -> Self { let mut a = [0; $len]; a[$len - 8..].copy_from_slice(&v.to_be_bytes()); $n(a) }
			pub fn to_low_u64_be(&self) -> u64 { u64::from_be_bytes(self.0[$len - 8..].try_into().unwrap()) }
		}
		impl Encode for $n { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.0) } }
		impl EncodeLike for $n {}
		impl Decode for $n { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let mut b = [0; $len]; i.read(&mut b)?; Ok($n(b)) } }
		impl MaxEncodedLen for $n { fn max_encoded_len() -> usize { $len } }
		impl TypeInfo for $n { type Identity = Self; fn type_info() -> scale_info::Type { Default::default() } }
		impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
		impl AsMut<[u8]> for $n { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
		impl From<[u8; $len]> for $n { fn from(x: [u8; $len]) -> Self { $n(x) } }
		impl From<$n> for [u8; $len] { fn from(x: $n) -> Self { x.0 } }
		impl TryFrom<&[u8]> for $n { type Error = (); fn try_from(x: &[u8]) -> Result<Self, ()> { x.try_into().map($n).map_err(|_| ()) } }
		impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&to_hex(&self.0)) } }
		impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&to_hex(&self.0)) } }
		impl fmt::LowerHex for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&to_hex(&self.0)) } }
		impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(&self.0)) } }
		impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
			let v = from_hex(&String::deserialize(d)?).map_err(D::Error::custom)?;
			v.try_into().map($n).map_err(|_| D::Error::custom("length"))
		} }
		impl std::str::FromStr for $n { type Err = String; fn from_str(s: &str) -> Result<Self, String> { from_hex(s)?.try_into().map($n).map_err(|_| "length".to_string()) } }
	)* }
}
fixed!(H128 16, H160 20, H256 32, H512 64);

pub trait Hasher {
	type Out: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Out;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Blake2Hasher;
impl Hasher for Blake2Hasher {
	type Out = H256;
	fn hash(x: &[u8]) -> H256 {
		H256(blake2_256(x))
	}
}

#[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}
impl Serialize for Bytes {
	fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&to_hex(&self.0))
	}
}
impl<'de> Deserialize<'de> for Bytes {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		from_hex(&String::deserialize(d)?).map(Bytes).map_err(D::Error::custom)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct OpaqueMetadata(pub Vec<u8>);

pub mod hexdisplay {
	use std::fmt;
	pub struct HexDisplay<'a>(&'a [u8]);
	pub trait AsBytesRef {
		fn as_bytes_ref(&self) -> &[u8];
	}
	impl AsBytesRef for &[u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for [u8] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl AsBytesRef for Vec<u8> {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<const N: usize> AsBytesRef for [u8; N] {
		fn as_bytes_ref(&self) -> &[u8] {
			self
		}
	}
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsBytesRef + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_bytes_ref())
		}
	}
	impl<'a> fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			f.write_str(&super::to_hex(self.0)[2..])
		}
	}
	impl<'a> fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
			f.write_str(&super::to_hex(self.0)[2..])
		}
	}
}

// ------------------------------------------------------------------------------------------------ crypto (symbolic)
pub mod crypto {
	use super::*;
	pub use super::AccountId32;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, Default, Encode, Decode)]
	pub struct KeyTypeId(pub [u8; 4]);
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	pub trait UncheckedInto<T> {
		fn unchecked_into(self) -> T;
	}
	impl<S, T: UncheckedFrom<S>> UncheckedInto<T> for S {
		fn unchecked_into(self) -> T {
			T::unchecked_from(self)
		}
	}
	pub trait ByteArray: AsRef<[u8]> + Sized + for<'a> TryFrom<&'a [u8]> {
		const LEN: usize;
		fn from_slice(d: &[u8]) -> Result<Self, ()> {
			Self::try_from(d).map_err(|_| ())
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_ref().to_vec()
		}
	}
	impl ByteArray for AccountId32 {
		const LEN: usize = 32;
	}
	/// Key pairs: `from_string("//Alice")`, `generate` with a counter.
	pub trait Pair: Clone + Sized {
		type Public: Clone + AsRef<[u8]>;
		type Seed: Default;
		type Signature: Clone + AsRef<[u8]>;
		fn from_seed(seed: &Self::Seed) -> Self;
		fn from_seed_slice(seed: &[u8]) -> Result<Self, ()>;
		fn from_string(s: &str, _pw: Option<&str>) -> Result<Self, ()> {
			Self::from_seed_slice(&blake2_256(s.as_bytes()))
		}
		fn generate() -> (Self, Self::Seed) {
			use std::sync::atomic::*;
			static N: AtomicU64 = AtomicU64::new(1);
			let n = N.fetch_add(1, Ordering::Relaxed);
			(Self::from_seed_slice(&blake2_256(&n.to_le_bytes())).unwrap(), Default::default())
		}
		fn public(&self) -> Self::Public;
		fn sign(&self, msg: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, msg: M, p: &Self::Public) -> bool;
		fn to_raw_vec(&self) -> Vec<u8>;
	}
	pub struct Ss58AddressFormat(pub u16);
}
pub use crypto::Pair;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(b: [u8; 32]) -> Self {
		AccountId32(b)
	}
}
impl Encode for AccountId32 {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		d.write(&self.0)
	}
}
impl EncodeLike for AccountId32 {}
impl Decode for AccountId32 {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		<[u8; 32]>::decode(i).map(AccountId32)
	}
}
impl MaxEncodedLen for AccountId32 {
	fn max_encoded_len() -> usize {
		32
	}
}
impl TypeInfo for AccountId32 {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
impl AsMut<[u8]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(x: [u8; 32]) -> Self {
		AccountId32(x)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(x: AccountId32) -> Self {
		x.0
	}
}
impl TryFrom<&[u8]> for AccountId32 {
	type Error = ();
	fn try_from(x: &[u8]) -> Result<Self, ()> {
		x.try_into().map(AccountId32).map_err(|_| ())
	}
}
impl From<H256> for AccountId32 {
	fn from(x: H256) -> Self {
		AccountId32(x.0)
	}
}
impl fmt::Debug for AccountId32 {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{}..", &to_hex(&self.0[..4]))
	}
}
impl fmt::Display for AccountId32 {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(&to_hex(&self.0))
	}
}
impl Serialize for AccountId32 {
	fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&to_hex(&self.0))
	}
}
impl<'de> Deserialize<'de> for AccountId32 {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = from_hex(&String::deserialize(d)?).map_err(D::Error::custom)?;
		v.try_into().map(AccountId32).map_err(|_| D::Error::custom("length"))
	}
}
impl std::str::FromStr for AccountId32 {
	type Err = &'static str;
	fn from_str(s: &str) -> Result<Self, Self::Err> {
		from_hex(s).ok().and_then(|v| v.try_into().ok()).map(AccountId32).ok_or("invalid account id")
	}
}

macro_rules! scheme {
	($m:ident, $plen:expr, $slen:expr, $tag:expr) => {
		/// Symbolic signatures: a signature is a tag over (public key, message); only the holder of the pair calls `sign`.
		pub mod $m {
			use super::*;
			#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
			pub struct Public(pub [u8; $plen]);
			#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
			pub struct Signature(pub [u8; $slen]);
			#[derive(Clone)]
			pub struct Pair([u8; 32]);
			impl Public {
				pub fn from_raw(x: [u8; $plen]) -> Self {
					Public(x)
				}
				pub fn from_h256(x: H256) -> Self {
					let mut a = [0; $plen];
					a[..32].copy_from_slice(&x.0);
					Public(a)
				}
			}
			impl Signature {
				pub fn from_raw(x: [u8; $slen]) -> Self {
					Signature(x)
				}
			}
			impl TryFrom<&[u8]> for Signature {
				type Error = ();
				fn try_from(x: &[u8]) -> Result<Self, ()> {
					x.try_into().map(Signature).map_err(|_| ())
				}
			}
			impl TryFrom<&[u8]> for Public {
				type Error = ();
				fn try_from(x: &[u8]) -> Result<Self, ()> {
					x.try_into().map(Public).map_err(|_| ())
				}
			}
			impl From<Public> for H256 {
				fn from(p: Public) -> H256 {
					H256::from_slice(&p.0[..32])
				}
			}
			impl crypto::ByteArray for Public {
				const LEN: usize = $plen;
			}
			impl crypto::UncheckedFrom<[u8; $plen]> for Public {
				fn unchecked_from(x: [u8; $plen]) -> Self {
					Public(x)
				}
			}
			scheme!(@bytes Public, $plen);
			scheme!(@bytes Signature, $slen);
			fn tag(p: &[u8], msg: &[u8]) -> [u8; $slen] {
				let mut d = $tag.to_vec();
				d.extend_from_slice(p);
				d.extend_from_slice(msg);
				let mut r = [0u8; $slen];
				let h = blake2_512(&d);
				r[..64].copy_from_slice(&h);
				r
			}
			impl crypto::Pair for Pair {
				type Public = Public;
				type Seed = [u8; 32];
				type Signature = Signature;
				fn from_seed(s: &[u8; 32]) -> Self {
					Pair(*s)
				}
				fn from_seed_slice(s: &[u8]) -> Result<Self, ()> {
					s.try_into().map(Pair).map_err(|_| ())
				}
				fn public(&self) -> Public {
					let mut d = b"pub".to_vec();
					d.extend_from_slice($tag);
					d.extend_from_slice(&self.0);
					let mut a = [2u8; $plen];
					a[$plen - 32..].copy_from_slice(&blake2_256(&d));
					Public(a)
				}
				fn sign(&self, msg: &[u8]) -> Signature {
					Signature(tag(&self.public().0, msg))
				}
				fn verify<M: AsRef<[u8]>>(sig: &Signature, msg: M, p: &Public) -> bool {
					sig.0 == tag(&p.0, msg.as_ref())
				}
				fn to_raw_vec(&self) -> Vec<u8> {
					self.0.to_vec()
				}
			}
		}
	};
	(@bytes $n:ident, $len:expr) => {
		impl Encode for $n { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.0) } }
		impl EncodeLike for $n {}
		impl Decode for $n { fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let mut b = [0; $len]; i.read(&mut b)?; Ok($n(b)) } }
		impl MaxEncodedLen for $n { fn max_encoded_len() -> usize { $len } }
		impl TypeInfo for $n { type Identity = Self; fn type_info() -> scale_info::Type { Default::default() } }
		impl AsRef<[u8]> for $n { fn as_ref(&self) -> &[u8] { &self.0 } }
		impl AsRef<[u8; $len]> for $n { fn as_ref(&self) -> &[u8; $len] { &self.0 } }
		impl AsMut<[u8]> for $n { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
		impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}..", &to_hex(&self.0[..6])) } }
		impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&to_hex(&self.0)) } }
		impl From<[u8; $len]> for $n { fn from(x: [u8; $len]) -> Self { $n(x) } }
		impl From<$n> for [u8; $len] { fn from(x: $n) -> Self { x.0 } }
		impl Serialize for $n { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&to_hex(&self.0)) } }
		impl<'de> Deserialize<'de> for $n { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
			let v = from_hex(&String::deserialize(d)?).map_err(D::Error::custom)?;
			v.try_into().map($n).map_err(|_| D::Error::custom("length"))
		} }
	};
}
scheme!(sr25519, 32, 64, b"sr");
scheme!(ed25519, 32, 64, b"ed");
scheme!(ecdsa, 33, 65, b"ec");

pub mod storage {
	pub enum StateVersion {
		V0,
		V1,
	}
	#[derive(Default, Clone)]
	pub struct Storage {
		pub state: crate::storage::State,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub enum ChildInfo {
		ParentKeyId(Vec<u8>),
	}
	impl ChildInfo {
		pub fn new_default(k: &[u8]) -> Self {
			ChildInfo::ParentKeyId(k.to_vec())
		}
		pub fn new_default_from_vec(k: Vec<u8>) -> Self {
			ChildInfo::ParentKeyId(k)
		}
		pub fn storage_key(&self) -> &[u8] {
			match self {
				ChildInfo::ParentKeyId(k) => k,
			}
		}
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct StorageKey(pub Vec<u8>);
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct StorageData(pub Vec<u8>);
	pub mod well_known_keys {
		pub const CODE: &[u8] = b":code";
	}
}

pub mod offchain {
	use super::*;
	/// What the node's off-chain database offers to RPC handlers.
	pub trait OffchainStorage: Clone + Send + Sync {
		fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]);
		fn remove(&mut self, prefix: &[u8], key: &[u8]);
		fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>;
		fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old_value: Option<&[u8]>, new_value: &[u8]) -> bool;
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	#[repr(C)]
	pub enum StorageKind {
		PERSISTENT = 1,
		LOCAL = 2,
	}
	pub const STORAGE_PREFIX: &[u8] = b"storage";
	#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default, Encode, Decode)]
	pub struct Timestamp(pub(crate) u64);
	#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Default, Encode, Decode)]
	pub struct Duration(pub(crate) u64);
	impl Duration {
		pub const fn from_millis(m: u64) -> Self {
			Duration(m)
		}
		pub fn millis(&self) -> u64 {
			self.0
		}
	}
	impl Timestamp {
		pub fn from_unix_millis(m: u64) -> Self {
			Timestamp(m)
		}
		pub fn unix_millis(&self) -> u64 {
			self.0
		}
		pub fn add(&self, d: Duration) -> Timestamp {
			Timestamp(self.0.saturating_add(d.0))
		}
		pub fn sub(&self, d: Duration) -> Timestamp {
			Timestamp(self.0.saturating_sub(d.0))
		}
		pub fn diff(&self, o: &Self) -> Duration {
			Duration(self.0.saturating_sub(o.0))
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Encode, Decode)]
	pub struct HttpRequestId(pub u16);
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum HttpRequestStatus {
		DeadlineReached,
		IoError,
		Invalid,
		Finished(u16),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum HttpError {
		DeadlineReached = 1,
		IoError = 2,
		Invalid = 3,
	}
	/// Marker types of the externalities (registered by tests only).
	pub struct OffchainDbExt;
	pub struct OffchainWorkerExt;
}

pub mod bounded;
pub mod serde {
	pub use ::serde::*;
}
pub trait RuntimeDebugNoop {}

/// `sp_core::defer!` etc. are not used.
pub mod traits {}

/// `sp_core::U256` is not used by Frequency; a u128 based stand-in keeps signatures compiling.
pub type U256 = u128;
