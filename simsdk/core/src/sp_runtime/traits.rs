use super::transaction_validity::*;
use super::{generic, AccountId32, ApplyExtrinsicResultWithInfo, DispatchResult, DispatchResultWithInfo, MultiAddress};
use crate::codec::{self, *};
use crate::frame_support::dispatch::{DispatchInfo, PostDispatchInfo};
use crate::macros::{Decode, Encode};
use crate::scale_info::{self, StaticTypeInfo, TypeInfo};
pub use crate::sp_core::{
	Blake2Hasher, ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault,
	H256, Hasher, TryCollect, TypedGet,
};
pub use num_traits::{
	ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
	checked_pow, Bounded, One, Signed, Unsigned, Zero,
};
use std::fmt::{Debug, Display};
use std::hash::Hash as StdHash;
use std::ops::*;
use std::str::FromStr;

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self
	where
		Self: One,
	{
		self.saturating_sub(One::one())
	}
	fn saturating_plus_one(self) -> Self
	where
		Self: One,
	{
		self.saturating_add(One::one())
	}
	fn saturating_inc(&mut self)
	where
		Self: One,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(One::one());
	}
	fn saturating_dec(&mut self)
	where
		Self: One,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self)
	where
		Self: One,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self)
	where
		Self: One,
	{
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(amount);
	}
}
impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
	fn saturating_add(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_add(self, o)
	}
	fn saturating_sub(self, o: Self) -> Self {
		<Self as num_traits::Saturating>::saturating_sub(self, o)
	}
	fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).unwrap_or_else(|| if (self < T::zero()) != (o < T::zero()) { Bounded::min_value() } else { Bounded::max_value() })
	}
	fn saturating_pow(self, exp: usize) -> Self {
		let neg = self < T::zero() && exp % 2 != 0;
		checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
	}
}
pub trait EnsureAdd: CheckedAdd + PartialOrd + Zero + Copy {
	fn ensure_add(self, v: Self) -> Result<Self, super::ArithmeticError> {
		self.checked_add(&v).ok_or(super::ArithmeticError::Overflow)
	}
}
impl<T: CheckedAdd + PartialOrd + Zero + Copy> EnsureAdd for T {}
pub trait EnsureMul: CheckedMul + PartialOrd + Zero + Copy {
	fn ensure_mul(self, v: Self) -> Result<Self, super::ArithmeticError> {
		self.checked_mul(&v).ok_or(super::ArithmeticError::Overflow)
	}
}
impl<T: CheckedMul + PartialOrd + Zero + Copy> EnsureMul for T {}
pub trait EnsureDiv: CheckedDiv + PartialOrd + Zero + Copy {
	fn ensure_div(self, v: Self) -> Result<Self, super::ArithmeticError> {
		self.checked_div(&v).ok_or(super::ArithmeticError::DivisionByZero)
	}
}
impl<T: CheckedDiv + PartialOrd + Zero + Copy> EnsureDiv for T {}
pub trait EnsureAddAssign: EnsureAdd {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), super::ArithmeticError> {
		*self = self.ensure_add(v)?;
		Ok(())
	}
}
impl<T: EnsureAdd> EnsureAddAssign for T {}
pub trait EnsureSubAssign: EnsureSub {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), super::ArithmeticError> {
		*self = self.ensure_sub(v)?;
		Ok(())
	}
}
impl<T: EnsureSub> EnsureSubAssign for T {}
pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self>
	where
		Self: TryFrom<T>,
	{
		<Self as TryFrom<T>>::try_from(t).ok()
	}
	fn checked_into<T>(self) -> Option<T>
	where
		Self: TryInto<T>,
	{
		<Self as TryInto<T>>::try_into(self).ok()
	}
}
impl<T: Sized> CheckedConversion for T {}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub trait EnsureSub: CheckedSub + PartialOrd + Zero + Copy {
	fn ensure_sub(self, v: Self) -> Result<Self, super::ArithmeticError> {
		self.checked_sub(&v).ok_or(super::ArithmeticError::Underflow)
	}
}
impl<T: CheckedSub + PartialOrd + Zero + Copy> EnsureSub for T {}

pub trait IntegerSquareRoot: Sized {
	fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! isq {
	($($t:ty)*) => { $( impl IntegerSquareRoot for $t { fn integer_sqrt_checked(&self) -> Option<Self> {
		if (*self as i128) < 0 && stringify!($t).starts_with('i') { return None }
		let n = *self as u128; if n == 0 { return Some(0) }
		let mut x = n; let mut y = (x >> 1) + 1; while y < x { x = y; y = (x + n / x) >> 1; } Some(x as $t)
	} } )* };
}
isq!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128);

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self {
		S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
	}
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T {
		self.try_into().unwrap_or_else(|_| Bounded::max_value())
	}
}
pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self
	where
		Self: UniqueSaturatedFrom<T>,
	{
		<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
	}
	fn saturated_into<T>(self) -> T
	where
		Self: UniqueSaturatedInto<T> + Sized,
	{
		<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
	}
}
impl<T: Sized> SaturatedConversion for T {}

pub trait BaseArithmetic:
	From<u8>
	+ Zero
	+ One
	+ IntegerSquareRoot
	+ Add<Self, Output = Self>
	+ AddAssign<Self>
	+ Sub<Self, Output = Self>
	+ SubAssign<Self>
	+ Mul<Self, Output = Self>
	+ MulAssign<Self>
	+ Div<Self, Output = Self>
	+ DivAssign<Self>
	+ Rem<Self, Output = Self>
	+ RemAssign<Self>
	+ Shl<u32, Output = Self>
	+ Shr<u32, Output = Self>
	+ CheckedShl
	+ CheckedShr
	+ CheckedAdd
	+ CheckedSub
	+ CheckedMul
	+ CheckedDiv
	+ CheckedRem
	+ Saturating
	+ PartialOrd<Self>
	+ Ord
	+ Bounded
	+ HasCompact
	+ Sized
	+ Clone
	+ TryFrom<u8>
	+ TryInto<u8>
	+ TryFrom<u16>
	+ TryInto<u16>
	+ TryFrom<u32>
	+ TryInto<u32>
	+ TryFrom<u64>
	+ TryInto<u64>
	+ TryFrom<u128>
	+ TryInto<u128>
	+ TryFrom<usize>
	+ TryInto<usize>
	+ UniqueSaturatedFrom<u8>
	+ UniqueSaturatedInto<u8>
	+ UniqueSaturatedFrom<u16>
	+ UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32>
	+ UniqueSaturatedInto<u32>
	+ UniqueSaturatedFrom<u64>
	+ UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128>
	+ UniqueSaturatedInto<u128>
{
}
macro_rules! ba {
	($($t:ty)*) => { $( impl BaseArithmetic for $t {} )* };
}
ba!(u8 u16 u32 u64 u128);
pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

pub trait MaybeSerialize {}
impl<T> MaybeSerialize for T {}
pub trait MaybeSerializeDeserialize {}
impl<T> MaybeSerializeDeserialize for T {}
pub trait MaybeDisplay: Display {}
impl<T: Display> MaybeDisplay for T {}
pub trait MaybeFromStr {}
impl<T> MaybeFromStr for T {}
pub trait MaybeHash {}
impl<T> MaybeHash for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait SimpleBitOps: Sized {}
impl<T> SimpleBitOps for T {}
pub trait Printable {
	fn print(&self) {}
}
impl<T: Debug> Printable for T {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct LookupError;
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> &'static str {
		"Can not lookup"
	}
}
impl From<LookupError> for TransactionValidityError {
	fn from(_: LookupError) -> Self {
		UnknownTransaction::CannotLookup.into()
	}
}
pub trait Lazy<T: ?Sized> {
	fn get(&mut self) -> &T;
}
impl<'a> Lazy<[u8]> for &'a [u8] {
	fn get(&mut self) -> &[u8] {
		self
	}
}
pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
	type Signer: IdentifyAccount;
	fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
}
pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + TypeInfo;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct IdentityLookup<T>(std::marker::PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(s: T) -> Result<T, LookupError> {
		Ok(s)
	}
	fn unlookup(t: T) -> T {
		t
	}
}
impl<T> Lookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(&self, s: T) -> Result<T, LookupError> {
		Ok(s)
	}
}
pub struct AccountIdLookup<A, I>(std::marker::PhantomData<(A, I)>);
impl<A: Codec + Clone + PartialEq + Debug + TypeInfo + 'static, I: Codec + Clone + PartialEq + Debug + TypeInfo + 'static> StaticLookup for AccountIdLookup<A, I>
where
	MultiAddress<A, I>: Codec + TypeInfo,
{
	type Source = MultiAddress<A, I>;
	type Target = A;
	fn lookup(x: Self::Source) -> Result<A, LookupError> {
		match x {
			MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: A) -> Self::Source {
		MultiAddress::Id(x)
	}
}
pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		Default::default()
	}
}
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub struct ConvertInto;
impl<A, B: From<A>> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
pub trait BlockNumberProvider {
	type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned;
	fn current_block_number() -> Self::BlockNumber;
}
pub trait Hash: 'static + Debug + Clone + Eq + PartialEq {
	type Output: Member + Debug + StdHash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + EncodeLike + MaxEncodedLen + TypeInfo + serde::Serialize + serde::de::DeserializeOwned;
	fn hash(s: &[u8]) -> Self::Output;
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		s.using_encoded(|b| <Self as Hash>::hash(b))
	}
}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
	type Output = H256;
	fn hash(s: &[u8]) -> H256 {
		H256(crate::hashing::blake2_256(s))
	}
}
impl Hasher for BlakeTwo256 {
	type Out = H256;
	fn hash(s: &[u8]) -> H256 {
		H256(crate::hashing::blake2_256(s))
	}
}
pub trait HashOutput {}
pub trait BlockNumber:
	Member + Debug + StdHash + Copy + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Display + FromStr + Codec + EncodeLike
{
}
impl<T: Member + Debug + StdHash + Copy + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Display + FromStr + Codec + EncodeLike> BlockNumber for T {}
pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + 'static {
	type Number: BlockNumber;
	type Hash: Member + Debug + StdHash + Copy + Ord + Default + Codec + AsRef<[u8]> + AsMut<[u8]> + TypeInfo + MaxEncodedLen + Display + FromStr + EncodeLike + serde::Serialize + serde::de::DeserializeOwned;
	type Hashing: Hash<Output = Self::Hash>;
	fn number(&self) -> &Self::Number;
	fn set_number(&mut self, n: Self::Number);
	fn extrinsics_root(&self) -> &Self::Hash;
	fn state_root(&self) -> &Self::Hash;
	fn parent_hash(&self) -> &Self::Hash;
	fn digest(&self) -> &generic::Digest;
	fn hash(&self) -> Self::Hash {
		Self::Hashing::hash_of(self)
	}
}
pub trait HeaderProvider {
	type HeaderT: Header;
}
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Codec + Eq + Debug + 'static {
	type Extrinsic: Member + Codec + Extrinsic;
	type Header: Header<Hash = Self::Hash>;
	type Hash: Member + Debug + StdHash + Copy + Ord + Default + Codec + AsRef<[u8]> + AsMut<[u8]> + TypeInfo + MaxEncodedLen + Display + FromStr + EncodeLike + serde::Serialize + serde::de::DeserializeOwned;
	fn header(&self) -> &Self::Header;
	fn extrinsics(&self) -> &[Self::Extrinsic];
	fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>);
	fn new(h: Self::Header, e: Vec<Self::Extrinsic>) -> Self;
	fn hash(&self) -> Self::Hash {
		self.header().hash()
	}
}
pub type HeaderFor<B> = <B as HeaderProvider>::HeaderT;
pub type NumberFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Number;
pub trait Extrinsic: Sized {
	type Call;
	type SignaturePayload;
	fn is_signed(&self) -> Option<bool> {
		None
	}
	fn new(_c: Self::Call, _s: Option<Self::SignaturePayload>) -> Option<Self> {
		None
	}
}
pub trait ExtrinsicMetadata {
	const VERSION: u8;
	type SignedExtensions;
}
pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
pub trait Checkable<Context>: Sized {
	type Checked;
	fn check(self, c: &Context) -> Result<Self::Checked, TransactionValidityError>;
}
pub trait Applyable: Sized + Send + Sync {
	type Call: Dispatchable;
	fn validate<V: ValidateUnsigned<Call = Self::Call>>(&self, source: TransactionSource, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity;
	fn apply<V: ValidateUnsigned<Call = Self::Call>>(self, info: &DispatchInfoOf<Self::Call>, len: usize) -> ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<Self::Call>>;
}
pub trait ValidateUnsigned {
	type Call;
	fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
		Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into)
	}
	fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
}
pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq + StaticTypeInfo {
	const IDENTIFIER: &'static str;
	type AccountId;
	type Call: Dispatchable;
	type AdditionalSigned: Codec + TypeInfo;
	type Pre;
	fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
	fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
		Self::validate_unsigned(call, info, len).map(|_| ()).map_err(Into::into)
	}
	fn post_dispatch(
		_pre: Option<Self::Pre>,
		_info: &DispatchInfoOf<Self::Call>,
		_post_info: &PostDispatchInfoOf<Self::Call>,
		_len: usize,
		_result: &DispatchResult,
	) -> Result<(), TransactionValidityError> {
		Ok(())
	}
}
macro_rules! ext_tuple {
	($($n:ident $i:tt),+) => {
		impl<AccountId, Call: Dispatchable, $($n: SignedExtension<AccountId = AccountId, Call = Call>),+> SignedExtension for ($($n,)+) {
			const IDENTIFIER: &'static str = "tuple";
			type AccountId = AccountId;
			type Call = Call;
			type AdditionalSigned = ($($n::AdditionalSigned,)+);
			type Pre = ($($n::Pre,)+);
			fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> { Ok(($(self.$i.additional_signed()?,)+)) }
			fn validate(&self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let valid = ValidTransaction::default();
				$( let valid = valid.combine_with(self.$i.validate(who, call, info, len)?); )+
				Ok(valid)
			}
			fn pre_dispatch(self, who: &AccountId, call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
				Ok(($(self.$i.pre_dispatch(who, call, info, len)?,)+))
			}
			fn validate_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
				let valid = ValidTransaction::default();
				$( let valid = valid.combine_with($n::validate_unsigned(call, info, len)?); )+
				Ok(valid)
			}
			fn pre_dispatch_unsigned(call: &Call, info: &DispatchInfoOf<Call>, len: usize) -> Result<(), TransactionValidityError> {
				$( $n::pre_dispatch_unsigned(call, info, len)?; )+
				Ok(())
			}
			fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Call>, post_info: &PostDispatchInfoOf<Call>, len: usize, result: &DispatchResult) -> Result<(), TransactionValidityError> {
				match pre {
					Some(x) => { $( $n::post_dispatch(Some(x.$i), info, post_info, len, result)?; )+ },
					None => { $( $n::post_dispatch(None, info, post_info, len, result)?; )+ },
				}
				Ok(())
			}
		}
	};
}
ext_tuple!(A 0);
ext_tuple!(A 0, B 1);
ext_tuple!(A 0, B 1, C 2);
ext_tuple!(A 0, B 1, C 2, D 3);
ext_tuple!(A 0, B 1, C 2, D 3, E 4);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
ext_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

pub trait SignaturePayload {}
pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId;
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_from_account(_a: &AccountId) -> Option<Self> {
		None
	}
}
impl<A: Decode> AccountIdConversion<A> for crate::frame_support::PalletId {
	fn into_account_truncating(&self) -> A {
		A::decode(&mut TrailingZeroInput::new(&(b"modl", self.0).encode())).expect("all byte sequences are valid accounts")
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> A {
		A::decode(&mut TrailingZeroInput::new(&(b"modl", self.0, sub).encode())).expect("all byte sequences are valid accounts")
	}
}
/// Bytes, followed by zeros without end.
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(d: &'a [u8]) -> Self {
		Self(d)
	}
	pub fn zeroes() -> Self {
		Self(&[])
	}
}
impl<'a> crate::codec::Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, crate::codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), crate::codec::Error> {
		let n = into.len().min(self.0.len());
		into[..n].copy_from_slice(&self.0[..n]);
		for b in &mut into[n..] {
			*b = 0
		}
		self.0 = &self.0[n..];
		Ok(())
	}
}
pub trait EnsureOriginDummy {}
pub type DispatchInfoAlias = (DispatchInfo, PostDispatchInfo);
pub fn accumulate_placeholder() {}
pub trait GetNodeBlockType {}
pub trait GetRuntimeBlockType {}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
pub struct Unit;
pub trait ReduceBy<T> {
	fn reduce(t: T) -> T;
}
