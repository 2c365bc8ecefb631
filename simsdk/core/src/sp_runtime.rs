//! `sp_runtime`
pub use crate::codec;
use crate::codec::*;
pub use crate::scale_info;
use crate::scale_info::TypeInfo;
pub use crate::sp_core::{
	self, bounded_btree_map, bounded_vec, crypto::{self, KeyTypeId}, sr25519, ed25519, ecdsa, storage::{Storage, StateVersion}, AccountId32, Bytes, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec,
	OpaqueMetadata, RuntimeDebug, TryCollect, WeakBoundedVec,
};
pub use crate::sp_std;
use crate::macros::{Decode, Encode, MaxEncodedLen};
use ::serde::{Deserialize, Serialize};
use std::fmt;

pub mod traits;
pub mod transaction_validity;
pub mod arith;
pub mod generic;
pub mod offchain;
pub mod runtime_logger {
	pub struct RuntimeLogger;
	impl RuntimeLogger {
		pub fn init() {}
	}
}
pub mod testing {
	pub use super::sp_core::H256;
	pub type UintAuthorityId = u64;
}
pub mod biguint {}
pub use arith::{FixedI128, FixedPointNumber, FixedPointOperand, FixedU128, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding, SaturatedConversion};
pub use traits::Saturating;

pub use generic::Digest;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize, PartialOrd, Ord)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize, PartialOrd, Ord)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Serialize, Deserialize, PartialOrd, Ord)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;
#[derive(Clone, Copy, Debug, Eq, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	#[serde(skip_deserializing)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Serialize, Deserialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		#[serde(skip_deserializing)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, .. }) => DispatchError::Module(ModuleError { index, error, message: None }),
			m => m,
		}
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(m) => m.message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(_) => "Token error",
			DispatchError::Arithmetic(_) => "Arithmetic error",
			DispatchError::Transactional(_) => "Transactional error",
			DispatchError::Exhausted => "Resources exhausted",
			DispatchError::Corruption => "State corrupt",
			DispatchError::Unavailable => "Resource unavailable",
			DispatchError::RootNotAllowed => "Root not allowed",
		}
	}
}
impl fmt::Display for DispatchError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl std::error::Error for DispatchError {}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		DispatchError::Other(s)
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl From<TokenError> for &'static str {
	fn from(_: TokenError) -> &'static str {
		"Token error"
	}
}
impl From<ArithmeticError> for &'static str {
	fn from(_: ArithmeticError) -> &'static str {
		"Arithmetic error"
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable> {
	pub post_info: Info,
	pub error: DispatchError,
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
impl<T> From<DispatchErrorWithPostInfo<T>> for &'static str
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable,
{
	fn from(e: DispatchErrorWithPostInfo<T>) -> &'static str {
		e.error.into()
	}
}
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type ApplyExtrinsicResultWithInfo<T> = Result<DispatchResultWithInfo<T>, transaction_validity::TransactionValidityError>;

#[derive(Debug, PartialEq, Clone)]
pub enum TryRuntimeError {
	Other(&'static str),
	Corruption,
}
impl From<&'static str> for TryRuntimeError {
	fn from(s: &'static str) -> Self {
		TryRuntimeError::Other(s)
	}
}
impl From<DispatchError> for TryRuntimeError {
	fn from(e: DispatchError) -> Self {
		TryRuntimeError::Other(e.into())
	}
}

pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Default::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}

// ------------------------------------------------------------------------------------------------ signatures
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum MultiSignature {
	Ed25519(ed25519::Signature),
	Sr25519(sr25519::Signature),
	Ecdsa(ecdsa::Signature),
}
impl From<ed25519::Signature> for MultiSignature {
	fn from(x: ed25519::Signature) -> Self {
		MultiSignature::Ed25519(x)
	}
}
impl From<sr25519::Signature> for MultiSignature {
	fn from(x: sr25519::Signature) -> Self {
		MultiSignature::Sr25519(x)
	}
}
impl From<ecdsa::Signature> for MultiSignature {
	fn from(x: ecdsa::Signature) -> Self {
		MultiSignature::Ecdsa(x)
	}
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, PartialOrd, Ord, Hash)]
pub enum MultiSigner {
	Ed25519(ed25519::Public),
	Sr25519(sr25519::Public),
	Ecdsa(ecdsa::Public),
}
impl From<sr25519::Public> for MultiSigner {
	fn from(x: sr25519::Public) -> Self {
		MultiSigner::Sr25519(x)
	}
}
impl From<ed25519::Public> for MultiSigner {
	fn from(x: ed25519::Public) -> Self {
		MultiSigner::Ed25519(x)
	}
}
impl From<ecdsa::Public> for MultiSigner {
	fn from(x: ecdsa::Public) -> Self {
		MultiSigner::Ecdsa(x)
	}
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(w) => w.0.into(),
			MultiSigner::Sr25519(w) => w.0.into(),
			MultiSigner::Ecdsa(w) => sp_core::blake2_256(&w.0).into(),
		}
	}
}
macro_rules! vf {
	($m:ident) => {
		impl traits::Verify for $m::Signature {
			type Signer = $m::Public;
			fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &<Self::Signer as traits::IdentifyAccount>::AccountId) -> bool {
				<$m::Pair as crypto::Pair>::verify(self, msg.get(), signer)
			}
		}
		impl traits::IdentifyAccount for $m::Public {
			type AccountId = Self;
			fn into_account(self) -> Self {
				self
			}
		}
	};
}
vf!(sr25519);
vf!(ed25519);
vf!(ecdsa);
thread_local! {
	/// the ecdsa stand-in cannot recover a public key from a signature, so accounts of known ecdsa keys are registered here
	pub static ECDSA_KEYS: std::cell::RefCell<std::collections::BTreeMap<AccountId32, ecdsa::Public>> = Default::default();
}
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
		use crypto::Pair;
		let who: [u8; 32] = signer.clone().into();
		match self {
			MultiSignature::Ed25519(s) => ed25519::Pair::verify(s, msg.get(), &ed25519::Public(who)),
			MultiSignature::Sr25519(s) => sr25519::Pair::verify(s, msg.get(), &sr25519::Public(who)),
			MultiSignature::Ecdsa(s) => match ECDSA_KEYS.with(|k| k.borrow().get(signer).cloned()) {
				Some(p) => ecdsa::Pair::verify(s, msg.get(), &p),
				None => false,
			},
		}
	}
}
pub mod multiaddress {
	pub use super::MultiAddress;
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Hash)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec<u8>),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
impl<A, I> From<A> for MultiAddress<A, I> {
	fn from(a: A) -> Self {
		MultiAddress::Id(a)
	}
}

/// An extrinsic as raw bytes.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct OpaqueExtrinsic(pub Vec<u8>);
impl OpaqueExtrinsic {
	pub fn from_bytes(mut b: &[u8]) -> Result<Self, codec::Error> {
		Self::decode(&mut b)
	}
}
impl Encode for OpaqueExtrinsic {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl EncodeLike for OpaqueExtrinsic {}
impl Decode for OpaqueExtrinsic {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		Ok(OpaqueExtrinsic(Decode::decode(i)?))
	}
}
impl TypeInfo for OpaqueExtrinsic {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}
#[macro_export]
macro_rules! create_runtime_str {
	($e:expr) => {
		$e
	};
}
pub use crate::create_runtime_str;
pub type RuntimeString = &'static str;
pub fn print(_p: impl fmt::Debug) {}

pub type ConsensusEngineId = [u8; 4];

#[macro_export]
macro_rules! impl_opaque_keys_shim {
	($($t:tt)*) => {};
}
pub use crate::impl_opaque_keys_shim as impl_opaque_keys;

pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
impl<R> TransactionOutcome<R> {
	pub fn into_inner(self) -> R {
		match self {
			Self::Commit(r) | Self::Rollback(r) => r,
		}
	}
}
