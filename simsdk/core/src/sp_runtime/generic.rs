use super::traits::{self, *};
use super::transaction_validity::*;
use super::{ApplyExtrinsicResultWithInfo, DispatchErrorWithPostInfo};
use crate::codec::{self, *};
use crate::macros::{Decode, Encode};
use crate::scale_info::{self, TypeInfo};
use std::fmt;

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct Digest {
	pub logs: Vec<DigestItem>,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum DigestItem {
	PreRuntime([u8; 4], Vec<u8>),
	Consensus([u8; 4], Vec<u8>),
	Seal([u8; 4], Vec<u8>),
	Other(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct Header<Number, Hash: traits::Hash> {
	pub parent_hash: Hash::Output,
	pub number: Number,
	pub state_root: Hash::Output,
	pub extrinsics_root: Hash::Output,
	pub digest: Digest,
}
impl<N: BlockNumber, H: traits::Hash> Encode for Header<N, H> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.parent_hash.encode_to(d);
		let n: u64 = self.number.unique_saturated_into();
		n.encode_to(d);
		self.state_root.encode_to(d);
		self.extrinsics_root.encode_to(d);
		self.digest.encode_to(d);
	}
}
impl<N: BlockNumber, H: traits::Hash> EncodeLike for Header<N, H> {}
impl<N: BlockNumber, H: traits::Hash> Decode for Header<N, H> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		Ok(Header {
			parent_hash: Decode::decode(i)?,
			number: N::unique_saturated_from(u64::decode(i)?),
			state_root: Decode::decode(i)?,
			extrinsics_root: Decode::decode(i)?,
			digest: Decode::decode(i)?,
		})
	}
}
impl<N: BlockNumber, H: traits::Hash + Send + Sync> traits::Header for Header<N, H>
where
	H::Output: fmt::Display + std::str::FromStr + EncodeLike,
{
	type Number = N;
	type Hash = H::Output;
	type Hashing = H;
	fn number(&self) -> &N {
		&self.number
	}
	fn set_number(&mut self, n: N) {
		self.number = n;
	}
	fn extrinsics_root(&self) -> &H::Output {
		&self.extrinsics_root
	}
	fn state_root(&self) -> &H::Output {
		&self.state_root
	}
	fn parent_hash(&self) -> &H::Output {
		&self.parent_hash
	}
	fn digest(&self) -> &Digest {
		&self.digest
	}
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SignedBlock<B> {
	pub block: B,
}
#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub struct Block<H, E> {
	pub header: H,
	pub extrinsics: Vec<E>,
}
impl<H: traits::Header, E> HeaderProvider for Block<H, E> {
	type HeaderT = H;
}
impl<H: traits::Header, E: Member + Codec + Extrinsic> traits::Block for Block<H, E> {
	type Extrinsic = E;
	type Header = H;
	type Hash = H::Hash;
	fn header(&self) -> &H {
		&self.header
	}
	fn extrinsics(&self) -> &[E] {
		&self.extrinsics
	}
	fn deconstruct(self) -> (H, Vec<E>) {
		(self.header, self.extrinsics)
	}
	fn new(header: H, extrinsics: Vec<E>) -> Self {
		Block { header, extrinsics }
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, TypeInfo)]
pub enum BlockId<B: traits::Block> {
	Hash(B::Hash),
	Number(NumberFor<B>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Era {
	Immortal,
	Mortal(u64, u64),
}
impl Era {
	pub fn immortal() -> Self {
		Era::Immortal
	}
	pub fn mortal(period: u64, current: u64) -> Self {
		let period = period.checked_next_power_of_two().unwrap_or(1 << 16).max(4).min(1 << 16);
		let phase = current % period;
		let q = (period >> 12).max(1);
		Era::Mortal(period, phase / q * q)
	}
	pub fn birth(self, current: u64) -> u64 {
		match self {
			Era::Immortal => 0,
			Era::Mortal(p, ph) => (current.max(ph) - ph) / p * p + ph,
		}
	}
	pub fn death(self, current: u64) -> u64 {
		match self {
			Era::Immortal => u64::MAX,
			Era::Mortal(p, _) => self.birth(current) + p,
		}
	}
	pub fn is_immortal(&self) -> bool {
		matches!(self, Era::Immortal)
	}
}

#[derive(Clone, PartialEq, Eq)]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
	pub signature: Option<(Address, Signature, Extra)>,
	pub function: Call,
}
impl<A: fmt::Debug, C: fmt::Debug, S, E> fmt::Debug for UncheckedExtrinsic<A, C, S, E> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "Extrinsic({:?}, {:?})", self.signature.as_ref().map(|x| &x.0), self.function)
	}
}
impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
	pub fn new_signed(function: C, signed: A, signature: S, extra: E) -> Self {
		Self { signature: Some((signed, signature, extra)), function }
	}
	pub fn new_unsigned(function: C) -> Self {
		Self { signature: None, function }
	}
}
impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		let mut t = vec![];
		match &self.signature {
			Some(s) => {
				t.push(4 | 0x80);
				s.0.encode_to(&mut t);
				s.1.encode_to(&mut t);
				s.2.encode_to(&mut t);
			},
			None => t.push(4),
		}
		self.function.encode_to(&mut t);
		t.encode_to(d)
	}
}
impl<A: Encode, C: Encode, S: Encode, E: Encode> EncodeLike for UncheckedExtrinsic<A, C, S, E> {}
impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let b: Vec<u8> = Decode::decode(i)?;
		let i = &mut &b[..];
		let v = u8::decode(i)?;
		if v & 0x7f != 4 {
			return Err("invalid transaction version".into())
		}
		let signature = if v & 0x80 != 0 { Some((Decode::decode(i)?, Decode::decode(i)?, Decode::decode(i)?)) } else { None };
		let function = Decode::decode(i)?;
		if !i.is_empty() {
			return Err("extrinsic has trailing bytes".into())
		}
		Ok(Self { signature, function })
	}
}
impl<A, C, S, E> TypeInfo for UncheckedExtrinsic<A, C, S, E> {
	type Identity = ();
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
impl<A: 'static, C: 'static, S: 'static, E: 'static> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> {
	type Call = C;
	type SignaturePayload = (A, S, E);
	fn is_signed(&self) -> Option<bool> {
		Some(self.signature.is_some())
	}
	fn new(function: C, signature: Option<(A, S, E)>) -> Option<Self> {
		Some(Self { signature, function })
	}
}
impl<A, C, S, E> crate::frame_support::dispatch::GetDispatchInfo for UncheckedExtrinsic<A, C, S, E>
where
	C: crate::frame_support::dispatch::GetDispatchInfo,
{
	fn get_dispatch_info(&self) -> crate::frame_support::dispatch::DispatchInfo {
		self.function.get_dispatch_info()
	}
}
/// What is signed: call, extensions and implicit data; hashed when longer than 256 bytes.
pub struct SignedPayload<Call, Extra: SignedExtension>((Call, Extra, Extra::AdditionalSigned));
impl<Call: Encode, Extra: SignedExtension> SignedPayload<Call, Extra> {
	pub fn new(call: Call, extra: Extra) -> Result<Self, TransactionValidityError> {
		let a = extra.additional_signed()?;
		Ok(Self((call, extra, a)))
	}
	pub fn from_raw(call: Call, extra: Extra, a: Extra::AdditionalSigned) -> Self {
		Self((call, extra, a))
	}
	pub fn deconstruct(self) -> (Call, Extra, Extra::AdditionalSigned) {
		self.0
	}
	pub fn using<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
		let p = self.0.encode();
		if p.len() > 256 {
			f(&crate::hashing::blake2_256(&p))
		} else {
			f(&p)
		}
	}
}
impl<Call: Encode, Extra: SignedExtension> Encode for SignedPayload<Call, Extra> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.using(|b| d.write(b))
	}
}
impl<A, AccountId, Call, S, Extra, L> Checkable<L> for UncheckedExtrinsic<A, Call, S, Extra>
where
	Call: Encode + Clone,
	S: Verify,
	<S as Verify>::Signer: IdentifyAccount<AccountId = AccountId>,
	Extra: SignedExtension<AccountId = AccountId>,
	L: Lookup<Source = A, Target = AccountId>,
{
	type Checked = CheckedExtrinsic<AccountId, Call, Extra>;
	fn check(self, l: &L) -> Result<Self::Checked, TransactionValidityError> {
		Ok(match self.signature {
			Some((a, s, e)) => {
				let who = l.lookup(a)?;
				let raw = SignedPayload::new(self.function, e)?;
				if !raw.using(|p| s.verify(p, &who)) {
					return Err(InvalidTransaction::BadProof.into())
				}
				let (function, extra, _) = raw.deconstruct();
				CheckedExtrinsic { signed: Some((who, extra)), function }
			},
			None => CheckedExtrinsic { signed: None, function: self.function },
		})
	}
}
pub struct CheckedExtrinsic<AccountId, Call, Extra> {
	pub signed: Option<(AccountId, Extra)>,
	pub function: Call,
}
impl<AccountId, Call, Extra> CheckedExtrinsic<AccountId, Call, Extra>
where
	AccountId: Clone,
	Extra: SignedExtension<AccountId = AccountId, Call = Call>,
	Call: Dispatchable,
	Call::RuntimeOrigin: From<Option<AccountId>>,
{
	pub fn validate<U: ValidateUnsigned<Call = Call>>(&self, source: TransactionSource, info: &DispatchInfoOf<Call>, len: usize) -> TransactionValidity {
		match &self.signed {
			Some((id, extra)) => Extra::validate(extra, id, &self.function, info, len),
			None => {
				let v = Extra::validate_unsigned(&self.function, info, len)?;
				let u = U::validate_unsigned(source, &self.function)?;
				Ok(v.combine_with(u))
			},
		}
	}
	pub fn apply<U: ValidateUnsigned<Call = Call>>(self, info: &DispatchInfoOf<Call>, len: usize) -> ApplyExtrinsicResultWithInfo<PostDispatchInfoOf<Call>> {
		let (maybe_who, maybe_pre) = match self.signed {
			Some((id, extra)) => {
				let pre = Extra::pre_dispatch(extra, &id, &self.function, info, len)?;
				(Some(id), Some(pre))
			},
			None => {
				Extra::pre_dispatch_unsigned(&self.function, info, len)?;
				U::pre_dispatch(&self.function)?;
				(None, None)
			},
		};
		let res = self.function.dispatch(Call::RuntimeOrigin::from(maybe_who));
		let post_info = match &res {
			Ok(i) => *i,
			Err(DispatchErrorWithPostInfo { post_info, .. }) => *post_info,
		};
		Extra::post_dispatch(maybe_pre, info, &post_info, len, &res.map(|_| ()).map_err(|e| e.error))?;
		Ok(res)
	}
}
