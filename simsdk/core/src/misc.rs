//! Small stand-ins for crates that are not available off-line.

/// `sp_api`
pub mod sp_api {
	pub use crate::macros::{decl_runtime_apis, impl_runtime_apis};
	use crate::sp_runtime::traits::Block as BlockT;
	#[derive(Debug)]
	pub enum ApiError {
		UnknownBlock(String),
		StateBackendIsNotTrie,
		Application(Box<dyn std::error::Error + Send + Sync>),
	}
	impl std::fmt::Display for ApiError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl std::error::Error for ApiError {}
	pub struct ApiRef<'a, T>(T, std::marker::PhantomData<&'a T>);
	impl<'a, T> From<T> for ApiRef<'a, T> {
		fn from(t: T) -> Self {
			ApiRef(t, Default::default())
		}
	}
	impl<'a, T> std::ops::Deref for ApiRef<'a, T> {
		type Target = T;
		fn deref(&self) -> &T {
			&self.0
		}
	}
	impl<'a, T> std::ops::DerefMut for ApiRef<'a, T> {
		fn deref_mut(&mut self) -> &mut T {
			&mut self.0
		}
	}
	pub trait ProvideRuntimeApi<Block: BlockT> {
		type Api;
		fn runtime_api(&self) -> ApiRef<'_, Self::Api>;
	}
	use crate::sp_version::RuntimeVersion;
	decl_runtime_apis! {
		pub trait Core {
			fn version() -> RuntimeVersion;
			fn execute_block(block: Block);
			fn initialize_block(header: &<Block as BlockT>::Header);
		}
	}
	pub type RuntimeApiInfo = ();
	pub fn create_apis_vec(_: &[()]) {}
}
pub mod sp_block_builder {
	use crate::sp_runtime::traits::Block as BlockT;
	use crate::sp_runtime::ApplyExtrinsicResult;
	crate::macros::decl_runtime_apis! {
		pub trait BlockBuilder {
			fn apply_extrinsic(extrinsic: <Block as BlockT>::Extrinsic) -> ApplyExtrinsicResult;
			fn finalize_block() -> <Block as BlockT>::Header;
		}
	}
}
pub mod sp_transaction_pool {
	pub mod runtime_api {
		use crate::sp_runtime::traits::Block as BlockT;
		use crate::sp_runtime::transaction_validity::{TransactionSource, TransactionValidity};
		crate::macros::decl_runtime_apis! {
			pub trait TaggedTransactionQueue {
				fn validate_transaction(source: TransactionSource, tx: <Block as BlockT>::Extrinsic, block_hash: Block::Hash) -> TransactionValidity;
			}
		}
	}
}
pub mod sp_offchain {
	pub use crate::sp_core::offchain::STORAGE_PREFIX;
	use crate::sp_runtime::traits::Block as BlockT;
	crate::macros::decl_runtime_apis! {
		pub trait OffchainWorkerApi {
			fn offchain_worker(header: &<Block as BlockT>::Header);
		}
	}
}
pub mod frame_system_rpc_runtime_api {
	crate::macros::decl_runtime_apis! {
		pub trait AccountNonceApi<AccountId, Nonce> {
			fn account_nonce(account: AccountId) -> Nonce;
		}
	}
}
pub mod pallet_transaction_payment_rpc_runtime_api {
	pub use crate::pallets::transaction_payment::{FeeDetails, InclusionFee, RuntimeDispatchInfo};
	use crate::sp_runtime::traits::Block as BlockT;
	crate::macros::decl_runtime_apis! {
		pub trait TransactionPaymentApi<Balance> {
			fn query_info(uxt: <Block as BlockT>::Extrinsic, len: u32) -> RuntimeDispatchInfo<Balance>;
			fn query_fee_details(uxt: <Block as BlockT>::Extrinsic, len: u32) -> FeeDetails<Balance>;
			fn query_weight_to_fee(weight: crate::sp_weights::Weight) -> Balance;
			fn query_length_to_fee(len: u32) -> Balance;
		}
	}
}
pub mod sp_blockchain {
	use crate::sp_runtime::traits::{Block as BlockT, NumberFor};
	#[derive(Debug)]
	pub enum Error {
		UnknownBlock(String),
		Backend(String),
	}
	pub type Result<T> = std::result::Result<T, Error>;
	#[derive(Debug, Clone)]
	pub struct Info<Block: BlockT> {
		pub best_hash: Block::Hash,
		pub best_number: NumberFor<Block>,
		pub genesis_hash: Block::Hash,
		pub finalized_hash: Block::Hash,
		pub finalized_number: NumberFor<Block>,
	}
	pub enum BlockStatus {
		InChain,
		Unknown,
	}
	pub trait HeaderBackend<Block: BlockT>: Send + Sync {
		fn info(&self) -> Info<Block>;
		fn header(&self, hash: Block::Hash) -> Result<Option<Block::Header>>;
		fn hash(&self, number: NumberFor<Block>) -> Result<Option<Block::Hash>>;
		fn number(&self, hash: Block::Hash) -> Result<Option<NumberFor<Block>>>;
	}
}
pub mod sp_rpc {
	pub mod number {
		use serde::{Deserialize, Serialize};
		#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
		#[serde(untagged)]
		pub enum NumberOrHex {
			Number(u64),
			Hex(u128),
		}
		impl Default for NumberOrHex {
			fn default() -> Self {
				NumberOrHex::Number(0)
			}
		}
		impl From<u128> for NumberOrHex {
			fn from(n: u128) -> Self {
				NumberOrHex::Hex(n)
			}
		}
		impl From<u64> for NumberOrHex {
			fn from(n: u64) -> Self {
				NumberOrHex::Number(n)
			}
		}
	}
}
pub mod polkadot_runtime_common {
	pub type BlockHashCount = crate::frame_support::traits::ConstU32<4096>;
	pub type SlowAdjustingFeeUpdate<R> = crate::pallets::transaction_payment::SlowAdjusting<R>;
}
pub mod sp_consensus_aura {
	pub mod sr25519 {
		pub type AuthorityId = crate::sp_core::sr25519::Public;
	}
}
/// `numtoa`
pub mod numtoa {
	pub trait NumToA {
		fn numtoa(self, base: u32, string: &mut [u8]) -> &[u8];
	}
	macro_rules! n { ($($t:ty),*) => { $(
		impl NumToA for $t {
			fn numtoa(self, base: u32, string: &mut [u8]) -> &[u8] {
				let mut i = string.len();
				let mut n = self as u128;
				let b = base as u128;
				loop {
					i -= 1;
					string[i] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[(n % b) as usize];
					n /= b;
					if n == 0 { break }
				}
				&string[i..]
			}
		}
	)* } }
	n!(u8, u16, u32, u64, u128, usize);
}
/// `hex`
pub mod hex {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum FromHexError {
		InvalidHexCharacter { c: char, index: usize },
		OddLength,
		InvalidStringLength,
	}
	impl std::fmt::Display for FromHexError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{:?}", self)
		}
	}
	impl std::error::Error for FromHexError {}
	pub fn encode<T: AsRef<[u8]>>(d: T) -> String {
		d.as_ref().iter().map(|b| format!("{:02x}", b)).collect()
	}
	pub fn decode<T: AsRef<[u8]>>(d: T) -> Result<Vec<u8>, FromHexError> {
		let d = d.as_ref();
		if d.len() % 2 != 0 {
			return Err(FromHexError::OddLength)
		}
		let v = |i: usize| (d[i] as char).to_digit(16).map(|x| x as u8).ok_or(FromHexError::InvalidHexCharacter { c: d[i] as char, index: i });
		(0..d.len() / 2).map(|i| Ok(v(2 * i)? << 4 | v(2 * i + 1)?)).collect()
	}
}
/// `impl_serde`
pub mod impl_serde {
	pub mod serialize {
		use serde::{de, Deserializer, Serializer};
		pub fn to_hex(b: &[u8], _skip: bool) -> String {
			format!("0x{}", crate::misc::hex::encode(b))
		}
		pub fn from_hex(s: &str) -> Result<Vec<u8>, crate::misc::hex::FromHexError> {
			let s = s.strip_prefix("0x").unwrap_or(s);
			if s.len() % 2 == 1 {
				crate::misc::hex::decode(format!("0{}", s))
			} else {
				crate::misc::hex::decode(s)
			}
		}
		pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
			s.serialize_str(&to_hex(b, false))
		}
		pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
			let s = <String as serde::Deserialize>::deserialize(d)?;
			from_hex(&s).map_err(|e| de::Error::custom(format!("{:?}", e)))
		}
	}
}
/// `multibase`: the alphabets a CID is met in.
pub mod multibase {
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Base {
		Identity,
		Base16Lower,
		Base16Upper,
		Base32Lower,
		Base32Upper,
		Base36Lower,
		Base58Btc,
		Base64,
		Base64Url,
		Base64Pad,
		Base64UrlPad,
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		UnknownBase(char),
		InvalidBaseString,
	}
	const B16: &[u8] = b"0123456789abcdef";
	const B16U: &[u8] = b"0123456789ABCDEF";
	const B32: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
	const B32U: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
	const B36: &[u8] = b"0123456789abcdefghijklmnopqrstuvwxyz";
	const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	const B64U: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
	enum K {
		Bits(&'static [u8], u32, bool),
		Big(&'static [u8]),
		Id,
	}
	impl Base {
		pub fn from_code(c: char) -> Result<Base, Error> {
			Ok(match c {
				'\0' => Base::Identity,
				'f' => Base::Base16Lower,
				'F' => Base::Base16Upper,
				'b' => Base::Base32Lower,
				'B' => Base::Base32Upper,
				'k' => Base::Base36Lower,
				'z' => Base::Base58Btc,
				'm' => Base::Base64,
				'M' => Base::Base64Pad,
				'u' => Base::Base64Url,
				'U' => Base::Base64UrlPad,
				c => return Err(Error::UnknownBase(c)),
			})
		}
		pub fn code(&self) -> char {
			match self {
				Base::Identity => '\0',
				Base::Base16Lower => 'f',
				Base::Base16Upper => 'F',
				Base::Base32Lower => 'b',
				Base::Base32Upper => 'B',
				Base::Base36Lower => 'k',
				Base::Base58Btc => 'z',
				Base::Base64 => 'm',
				Base::Base64Pad => 'M',
				Base::Base64Url => 'u',
				Base::Base64UrlPad => 'U',
			}
		}
		fn k(&self) -> K {
			match self {
				Base::Identity => K::Id,
				Base::Base16Lower => K::Bits(B16, 4, false),
				Base::Base16Upper => K::Bits(B16U, 4, false),
				Base::Base32Lower => K::Bits(B32, 5, false),
				Base::Base32Upper => K::Bits(B32U, 5, false),
				Base::Base36Lower => K::Big(B36),
				Base::Base58Btc => K::Big(B58),
				Base::Base64 => K::Bits(B64, 6, false),
				Base::Base64Url => K::Bits(B64U, 6, false),
				Base::Base64Pad => K::Bits(B64, 6, true),
				Base::Base64UrlPad => K::Bits(B64U, 6, true),
			}
		}
	}
	pub fn encode<I: AsRef<[u8]>>(base: Base, input: I) -> String {
		let input = input.as_ref();
		let mut o = String::new();
		o.push(base.code());
		match base.k() {
			K::Id => o.push_str(&String::from_utf8_lossy(input)),
			K::Bits(a, n, pad) => {
				let (mut acc, mut bits) = (0u32, 0u32);
				for b in input {
					acc = acc << 8 | *b as u32;
					bits += 8;
					while bits >= n {
						bits -= n;
						o.push(a[(acc >> bits & ((1 << n) - 1)) as usize] as char);
					}
					acc &= (1 << bits) - 1;
				}
				if bits > 0 {
					o.push(a[(acc << (n - bits) & ((1 << n) - 1)) as usize] as char);
				}
				while pad && (o.len() - 1) % 4 != 0 {
					o.push('=');
				}
			},
			K::Big(a) => {
				let b = a.len() as u32;
				let zeros = input.iter().take_while(|x| **x == 0).count();
				let mut digits: Vec<u32> = vec![];
				for x in &input[zeros..] {
					let mut c = *x as u32;
					for d in digits.iter_mut() {
						c += *d << 8;
						*d = c % b;
						c /= b;
					}
					while c > 0 {
						digits.push(c % b);
						c /= b;
					}
				}
				for _ in 0..zeros {
					o.push(a[0] as char);
				}
				for d in digits.iter().rev() {
					o.push(a[*d as usize] as char);
				}
			},
		}
		o
	}
	pub fn decode<T: AsRef<str>>(input: T) -> Result<(Base, Vec<u8>), Error> {
		let s = input.as_ref();
		let code = s.chars().next().ok_or(Error::InvalidBaseString)?;
		let base = Base::from_code(code)?;
		let rest = &s[code.len_utf8()..];
		let out = match base.k() {
			K::Id => rest.as_bytes().to_vec(),
			K::Bits(a, n, pad) => {
				let rest = if pad { rest.trim_end_matches('=') } else { rest };
				let (mut acc, mut bits) = (0u32, 0u32);
				let mut o = vec![];
				for c in rest.bytes() {
					// base32 and base16 are met case-insensitively
					let p = a.iter().position(|x| *x == c).ok_or(Error::InvalidBaseString)? as u32;
					acc = acc << n | p;
					bits += n;
					if bits >= 8 {
						bits -= 8;
						o.push((acc >> bits) as u8);
						acc &= (1 << bits) - 1;
					}
				}
				if bits >= n || acc != 0 {
					return Err(Error::InvalidBaseString)
				}
				o
			},
			K::Big(a) => {
				let b = a.len() as u32;
				let zeros = rest.bytes().take_while(|x| *x == a[0]).count();
				let mut bytes: Vec<u8> = vec![];
				for c in rest.bytes().skip(zeros) {
					let mut p = a.iter().position(|x| *x == c).ok_or(Error::InvalidBaseString)? as u32;
					for d in bytes.iter_mut() {
						p += *d as u32 * b;
						*d = p as u8;
						p >>= 8;
					}
					while p > 0 {
						bytes.push(p as u8);
						p >>= 8;
					}
				}
				bytes.extend(std::iter::repeat(0).take(zeros));
				bytes.reverse();
				bytes
			},
		};
		Ok((base, out))
	}
}
/// `cid`
pub mod cid {
	use std::io::Read;
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub enum Error {
		UnknownCodec,
		InputTooShort,
		ParsingError,
		InvalidCidVersion,
		InvalidCidV0Codec,
		InvalidCidV0Multihash,
		InvalidCidV0Base,
		VarIntDecodeError,
		Io,
		InvalidExplicitCidV0,
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Version {
		V0,
		V1,
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct Cid {
		pub version: Version,
		pub codec: u64,
		pub hash_code: u64,
		pub digest: Vec<u8>,
	}
	fn varint<R: Read>(r: &mut R) -> Result<u64, Error> {
		let mut out = 0u64;
		for i in 0..10 {
			let mut b = [0u8; 1];
			r.read_exact(&mut b).map_err(|_| Error::Io)?;
			if i == 9 && b[0] > 1 {
				return Err(Error::VarIntDecodeError)
			}
			out |= ((b[0] & 0x7f) as u64) << (7 * i);
			if b[0] & 0x80 == 0 {
				if b[0] == 0 && i > 0 {
					return Err(Error::VarIntDecodeError)
				}
				return Ok(out)
			}
		}
		Err(Error::VarIntDecodeError)
	}
	impl Cid {
		pub fn read_bytes<R: Read>(mut r: R) -> Result<Self, Error> {
			let version = varint(&mut r)?;
			let codec = varint(&mut r)?;
			if [version, codec] == [0x12, 0x20] {
				let mut d = [0u8; 32];
				r.read_exact(&mut d).map_err(|_| Error::Io)?;
				return Ok(Cid { version: Version::V0, codec: 0x70, hash_code: 0x12, digest: d.to_vec() })
			}
			match version {
				0 => return Err(Error::InvalidExplicitCidV0),
				1 => {},
				_ => return Err(Error::InvalidCidVersion),
			}
			let code = varint(&mut r)?;
			let size = varint(&mut r)?;
			if size > 64 {
				return Err(Error::ParsingError)
			}
			let mut d = vec![0u8; size as usize];
			r.read_exact(&mut d).map_err(|_| Error::Io)?;
			Ok(Cid { version: Version::V1, codec, hash_code: code, digest: d })
		}
	}
}
/// `rayon`: parallel iterators, run in order.
pub mod rayon {
	pub mod iter {
		pub use super::prelude::*;
	}
	pub mod prelude {
		pub trait IntoParallelRefIterator<'a> {
			type Iter;
			fn par_iter(&'a self) -> Self::Iter;
		}
		impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
		where
			&'a I: IntoIterator,
		{
			type Iter = <&'a I as IntoIterator>::IntoIter;
			fn par_iter(&'a self) -> Self::Iter {
				self.into_iter()
			}
		}
		pub trait IntoParallelIterator: IntoIterator + Sized {
			fn into_par_iter(self) -> Self::IntoIter {
				self.into_iter()
			}
		}
		impl<I: IntoIterator> IntoParallelIterator for I {}
		pub trait ParallelSlice<T> {
			fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T>;
		}
		impl<T> ParallelSlice<T> for [T] {
			fn par_chunks(&self, n: usize) -> std::slice::Chunks<'_, T> {
				self.chunks(n)
			}
		}
		/// What parallel iterators have and iterators have not.
		pub trait ParallelIterator: Iterator + Sized {
			fn with_min_len(self, _: usize) -> Self {
				self
			}
			fn with_max_len(self, _: usize) -> Self {
				self
			}
		}
		impl<I: Iterator> ParallelIterator for I {}
		pub use ParallelIterator as IndexedParallelIterator;
	}
}
/// `sc-transaction-pool-api`: what queries see of the pool.
pub mod sc_transaction_pool_api {
	use crate::sp_runtime::traits::Block as BlockT;
	use std::sync::Arc;
	pub type TransactionTag = Vec<u8>;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	#[derive(Debug, Clone, Default)]
	pub struct PoolStatus {
		pub ready: usize,
		pub ready_bytes: usize,
		pub future: usize,
		pub future_bytes: usize,
	}
	impl PoolStatus {
		pub fn is_empty(&self) -> bool {
			self.ready == 0 && self.future == 0
		}
	}
	pub trait InPoolTransaction {
		type Transaction;
		type Hash;
		fn data(&self) -> &Self::Transaction;
		fn hash(&self) -> &Self::Hash;
		fn priority(&self) -> &TransactionPriority;
		fn longevity(&self) -> &TransactionLongevity;
		fn requires(&self) -> &[TransactionTag];
		fn provides(&self) -> &[TransactionTag];
		fn is_propagable(&self) -> bool;
	}
	pub trait ReadyTransactions: Iterator {
		fn report_invalid(&mut self, tx: &Self::Item);
	}
	pub trait TransactionPool: Send + Sync {
		type Block: BlockT;
		type Hash;
		type InPoolTransaction: InPoolTransaction<Hash = Self::Hash>;
		fn status(&self) -> PoolStatus;
		fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Self::InPoolTransaction>> + Send>;
		fn futures(&self) -> Vec<Self::InPoolTransaction>;
		fn ready_transaction(&self, hash: &Self::Hash) -> Option<Arc<Self::InPoolTransaction>>;
	}
}
pub mod substrate_frame_rpc_system {
	pub use crate::frame_system_rpc_runtime_api::AccountNonceApi;
}
pub mod cumulus_primitives_core {
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
	pub struct ParaId(pub u32);
	pub mod relay_chain {
		pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
	}
	pub use relay_chain::MAX_POV_SIZE as _MAX;
}
