//! `parity_scale_codec`: SCALE encoding, byte for byte as the real crate produces it.
pub use crate::macros::{CompactAs, Decode, Encode, MaxEncodedLen};
use std::{
	borrow::Cow,
	collections::{BTreeMap, BTreeSet, VecDeque},
	marker::PhantomData,
	rc::Rc,
	sync::Arc,
};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Error(pub String);
impl From<&'static str> for Error {
	fn from(s: &'static str) -> Self {
		Error(s.to_string())
	}
}
impl Error {
	pub fn what(&self) -> &str {
		&self.0
	}
	pub fn chain(self, d: impl Into<Cow<'static, str>>) -> Self {
		Error(format!("{}: {}", d.into(), self.0))
	}
}
impl std::fmt::Display for Error {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}
impl std::error::Error for Error {}

pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, b: u8) {
		self.write(&[b])
	}
	fn push<V: Encode + ?Sized>(&mut self, v: &V)
	where
		Self: Sized,
	{
		v.encode_to(self)
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, b: &[u8]) {
		self.extend_from_slice(b)
	}
}
pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into())
		}
		let (a, b) = self.split_at(into.len());
		into.copy_from_slice(a);
		*self = b;
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| Error("io error".into()))
	}
}

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.using_encoded(|b| dest.write(b))
	}
	fn encode(&self) -> Vec<u8> {
		let mut v = Vec::new();
		self.encode_to(&mut v);
		v
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		self.encode().len()
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
}
pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLimit: Sized {
	fn decode_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_with_depth_limit(_: u32, input: &mut &[u8]) -> Result<Self, Error> {
		T::decode(input)
	}
	fn decode_all_with_depth_limit(_: u32, input: &mut &[u8]) -> Result<Self, Error> {
		T::decode_all(input)
	}
}
pub trait Codec: Encode + Decode {}
impl<T: Encode + Decode> Codec for T {}
pub trait FullCodec: Decode + EncodeLike {}
impl<T: Decode + EncodeLike> FullCodec for T {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait WrapperTypeEncode: std::ops::Deref {}
pub trait Joiner {
	fn and<V: Encode>(self, v: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Encode>(mut self, v: &V) -> Self {
		v.encode_to(&mut self);
		self
	}
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, p: &[u8]) -> Vec<u8> {
		let mut v = p.to_vec();
		self.encode_to(&mut v);
		v
	}
}
pub trait DecodeLength {
	fn len(b: &[u8]) -> Result<usize, Error>;
}
impl<T> DecodeLength for Vec<T> {
	fn len(mut b: &[u8]) -> Result<usize, Error> {
		Compact::<u32>::decode(&mut b).map(|x| x.0 as usize)
	}
}
pub trait EncodeAppend {
	type Item: Encode;
}

// ---------------------------------------------------------------------------------------------- integers
macro_rules! ints {
	($($t:ty),*) => { $(
		impl Encode for $t {
			fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { d.write(&self.to_le_bytes()) }
		}
		impl EncodeLike for $t {}
		impl Decode for $t {
			fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; std::mem::size_of::<$t>()];
				i.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
		}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
	)* }
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl Encode for bool {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		d.push_byte(*self as u8)
	}
}
impl EncodeLike for bool {}
impl Decode for bool {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}

// ---------------------------------------------------------------------------------------------- compact
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(t: T) -> Self {
		Compact(t)
	}
}
pub struct CompactRef<'a, T>(pub &'a T);
pub trait HasCompact: Sized {
	type Type;
	fn compact_u128(&self) -> u128;
	fn from_compact_u128(v: u128) -> Result<Self, Error>;
	fn compact_mel() -> usize;
}
pub trait CompactAs: Sized {
	type As;
	fn encode_as(&self) -> &Self::As;
	fn decode_from(x: Self::As) -> Result<Self, Error>;
}
impl<T: CompactAs> HasCompact for T
where
	T::As: HasCompact,
{
	type Type = Compact<T>;
	fn compact_u128(&self) -> u128 {
		self.encode_as().compact_u128()
	}
	fn from_compact_u128(v: u128) -> Result<Self, Error> {
		T::decode_from(T::As::from_compact_u128(v)?)
	}
	fn compact_mel() -> usize {
		T::As::compact_mel()
	}
}
macro_rules! compacts {
	($($t:ty => $m:expr),*) => { $(
		impl HasCompact for $t {
			type Type = Compact<$t>;
			fn compact_u128(&self) -> u128 { *self as u128 }
			fn from_compact_u128(v: u128) -> Result<Self, Error> { <$t>::try_from(v).map_err(|_| Error::from("out of range decoding Compact")) }
			fn compact_mel() -> usize { $m }
		}
	)* }
}
compacts!(u8 => 2, u16 => 4, u32 => 5, u64 => 9, u128 => 17);
impl HasCompact for () {
	type Type = Compact<()>;
	fn compact_u128(&self) -> u128 {
		0
	}
	fn from_compact_u128(_: u128) -> Result<Self, Error> {
		Ok(())
	}
	fn compact_mel() -> usize {
		0
	}
}
fn put_compact<O: Output + ?Sized>(v: u128, d: &mut O) {
	if v < 1 << 6 {
		d.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		d.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		d.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let bytes = v.to_le_bytes();
		let n = (16 - (v.leading_zeros() / 8) as usize).max(4);
		d.push_byte(3 + (((n - 4) as u8) << 2));
		d.write(&bytes[..n]);
	}
}
fn get_compact<I: Input>(i: &mut I) -> Result<u128, Error> {
	let p = i.read_byte()?;
	let bad = || Error::from("out of range decoding Compact");
	Ok(match p % 4 {
		0 => (p >> 2) as u128,
		1 => {
			let q = i.read_byte()?;
			let x = u16::from_le_bytes([p, q]) >> 2;
			if x <= 0x3f {
				return Err(bad())
			}
			x as u128
		},
		2 => {
			let mut r = [0u8; 3];
			i.read(&mut r)?;
			let x = u32::from_le_bytes([p, r[0], r[1], r[2]]) >> 2;
			if x <= 0x3fff {
				return Err(bad())
			}
			x as u128
		},
		_ => {
			let n = (p >> 2) as usize + 4;
			if n > 16 {
				return Err(bad())
			}
			let mut b = [0u8; 16];
			i.read(&mut b[..n])?;
			if b[n - 1] == 0 && n > 4 {
				return Err(bad())
			}
			let x = u128::from_le_bytes(b);
			if n == 4 && x <= u32::MAX as u128 >> 2 {
				return Err(bad())
			}
			x
		},
	})
}
impl<T: HasCompact> Encode for Compact<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_compact(self.0.compact_u128(), d)
	}
}
impl<T: HasCompact> EncodeLike for Compact<T> {}
impl<'a, T: HasCompact> Encode for CompactRef<'a, T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_compact(self.0.compact_u128(), d)
	}
}
impl<T: HasCompact> Decode for Compact<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		T::from_compact_u128(get_compact(i)?).map(Compact)
	}
}
impl<T: HasCompact> MaxEncodedLen for Compact<T> {
	fn max_encoded_len() -> usize {
		T::compact_mel()
	}
}

// ---------------------------------------------------------------------------------------------- containers
impl<T: Encode + ?Sized> Encode for &T {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		(**self).encode_to(d)
	}
}
impl<T: Encode + ?Sized> Encode for &mut T {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		(**self).encode_to(d)
	}
}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: Encode> EncodeLike for &T {}
macro_rules! wrappers {
	($($w:ident),*) => { $(
		impl<T: Encode + ?Sized> Encode for $w<T> { fn encode_to<O: Output + ?Sized>(&self, d: &mut O) { (**self).encode_to(d) } }
		impl<T: Encode> EncodeLike for $w<T> {}
		impl<T: Decode> Decode for $w<T> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { T::decode(i).map($w::new) } }
		impl<T: MaxEncodedLen> MaxEncodedLen for $w<T> { fn max_encoded_len() -> usize { T::max_encoded_len() } }
	)* }
}
wrappers!(Box, Rc, Arc);
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<'a, T: ToOwned + Encode + ?Sized> Encode for Cow<'a, T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		(**self).encode_to(d)
	}
}
impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
	T::Owned: Decode,
{
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		T::Owned::decode(i).map(Cow::Owned)
	}
}
fn put_len<O: Output + ?Sized>(n: usize, d: &mut O) {
	put_compact(n as u128, d)
}
impl<T: Encode> Encode for [T] {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_len(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_slice().encode_to(d)
	}
}
impl<T: Encode + EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: Encode + EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
fn decode_n<I: Input, T: Decode>(i: &mut I, n: usize) -> Result<Vec<T>, Error> {
	let cap = i.remaining_len()?.unwrap_or(n).min(n).min(1 << 16);
	let mut v = Vec::with_capacity(cap);
	for _ in 0..n {
		v.push(T::decode(i)?)
	}
	Ok(v)
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(i)?.0 as usize;
		decode_n(i, n)
	}
}
impl Encode for str {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_bytes().encode_to(d)
	}
}
impl Encode for String {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_bytes().encode_to(d)
	}
}
impl EncodeLike for String {}
impl EncodeLike<String> for &str {}
impl Decode for String {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(i)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl<T: Encode> Encode for VecDeque<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_len(self.len(), d);
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: Encode> EncodeLike for VecDeque<T> {}
impl<T: Decode> Decode for VecDeque<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Vec::decode(i).map(Into::into)
	}
}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_len(self.len(), d);
		for (k, v) in self {
			k.encode_to(d);
			v.encode_to(d)
		}
	}
}
impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(i)?.0 as usize;
		Ok(decode_n::<I, (K, V)>(i, n)?.into_iter().collect())
	}
}
impl<K: Encode> Encode for BTreeSet<K> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		put_len(self.len(), d);
		for k in self {
			k.encode_to(d);
		}
	}
}
impl<K: Encode> EncodeLike for BTreeSet<K> {}
impl<K: Decode + Ord> Decode for BTreeSet<K> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(i)?.0 as usize;
		Ok(decode_n::<I, K>(i, n)?.into_iter().collect())
	}
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		for x in self {
			x.encode_to(d)
		}
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		let v: Vec<T> = decode_n(i, N)?;
		v.try_into().map_err(|_| Error::from("array"))
	}
}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len() * N
	}
}
impl<T: Encode> Encode for Option<T> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		match self {
			Some(x) => {
				d.push_byte(1);
				x.encode_to(d)
			},
			None => d.push_byte(0),
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(i)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		1 + T::max_encoded_len()
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		match self {
			Ok(x) => {
				d.push_byte(0);
				x.encode_to(d)
			},
			Err(e) => {
				d.push_byte(1);
				e.encode_to(d)
			},
		}
	}
}
impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		match i.read_byte()? {
			0 => Ok(Ok(T::decode(i)?)),
			1 => Ok(Err(E::decode(i)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T> Encode for PhantomData<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for () {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl EncodeLike for () {}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
macro_rules! tuples {
	($( ($($t:ident $u:ident $i:tt),*) )*) => { $(
		impl<$($t: Encode),*> Encode for ($($t,)*) {
			fn encode_to<OO: Output + ?Sized>(&self, d: &mut OO) { $( self.$i.encode_to(d); )* }
		}
		impl<$($t: EncodeLike<$u>, $u: Encode),*> EncodeLike<($($u,)*)> for ($($t,)*) {}
		impl<$($t: Decode),*> Decode for ($($t,)*) {
			fn decode<II: Input>(i: &mut II) -> Result<Self, Error> { Ok(($( <$t as Decode>::decode(i)?, )*)) }
		}
		impl<$($t: MaxEncodedLen),*> MaxEncodedLen for ($($t,)*) { fn max_encoded_len() -> usize { 0 $( + $t::max_encoded_len() )* } }
	)* }
}
tuples! {
	(A A1 0)
	(A A1 0, B B1 1)
	(A A1 0, B B1 1, C C1 2)
	(A A1 0, B B1 1, C C1 2, D D1 3)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9, K K1 10)
	(A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, I I1 8, J J1 9, K K1 10, L L1 11)
}
impl Encode for std::time::Duration {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.as_secs().encode_to(d);
		self.subsec_nanos().encode_to(d)
	}
}
/// A reference of `T` that encodes like `T`.
pub struct Ref<'a, T: EncodeLike<U>, U: Encode>(&'a T, PhantomData<U>);
impl<'a, T: EncodeLike<U>, U: Encode> Encode for Ref<'a, T, U> {
	fn encode_to<O: Output + ?Sized>(&self, d: &mut O) {
		self.0.encode_to(d)
	}
}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<U> for Ref<'a, T, U> {}
impl<'a, T: EncodeLike<U>, U: Encode> From<&'a T> for Ref<'a, T, U> {
	fn from(x: &'a T) -> Self {
		Ref(x, PhantomData)
	}
}
