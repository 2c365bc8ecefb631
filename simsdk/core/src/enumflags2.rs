//! `enumflags2`
pub use crate::macros::bitflags;
use std::{fmt, hash, ops::*};
pub trait BitFlag: Copy + Clone + 'static {
	type Numeric: Copy
		+ Default
		+ PartialEq
		+ Eq
		+ PartialOrd
		+ Ord
		+ hash::Hash
		+ fmt::Debug
		+ BitOr<Output = Self::Numeric>
		+ BitAnd<Output = Self::Numeric>
		+ BitXor<Output = Self::Numeric>
		+ Not<Output = Self::Numeric>;
	const ALL: Self::Numeric;
	const NONE: Self::Numeric;
	const LIST: &'static [Self];
	fn bits(self) -> Self::Numeric;
	fn empty() -> BitFlags<Self> {
		BitFlags::empty()
	}
	fn all() -> BitFlags<Self> {
		BitFlags::all()
	}
}
pub struct BitFlags<T: BitFlag>(T::Numeric);
impl<T: BitFlag> Clone for BitFlags<T> {
	fn clone(&self) -> Self {
		*self
	}
}
impl<T: BitFlag> Copy for BitFlags<T> {}
impl<T: BitFlag> PartialEq for BitFlags<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: BitFlag> Eq for BitFlags<T> {}
impl<T: BitFlag> fmt::Debug for BitFlags<T> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "BitFlags({:?})", self.0)
	}
}
impl<T: BitFlag> Default for BitFlags<T> {
	fn default() -> Self {
		Self::empty()
	}
}
#[derive(Debug)]
pub struct FromBitsError;
impl<T: BitFlag> BitFlags<T> {
	pub const EMPTY: Self = BitFlags(T::NONE);
	pub const ALL: Self = BitFlags(T::ALL);
	pub fn empty() -> Self {
		BitFlags(Default::default())
	}
	pub fn all() -> Self {
		BitFlags(T::ALL)
	}
	pub fn bits(self) -> T::Numeric {
		self.0
	}
	pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError> {
		if b & !T::ALL != Default::default() {
			Err(FromBitsError)
		} else {
			Ok(BitFlags(b))
		}
	}
	pub fn from_bits_truncate(b: T::Numeric) -> Self {
		BitFlags(b & T::ALL)
	}
	pub fn is_empty(self) -> bool {
		self.0 == Default::default()
	}
	pub fn is_all(self) -> bool {
		self.0 == T::ALL
	}
	pub fn contains<B: Into<Self>>(self, o: B) -> bool {
		let o = o.into();
		self.0 & o.0 == o.0
	}
	pub fn intersects<B: Into<Self>>(self, o: B) -> bool {
		self.0 & o.into().0 != Default::default()
	}
	pub fn insert<B: Into<Self>>(&mut self, o: B) {
		self.0 = self.0 | o.into().0
	}
	pub fn remove<B: Into<Self>>(&mut self, o: B) {
		self.0 = self.0 & !o.into().0
	}
	pub fn iter(self) -> impl Iterator<Item = T> {
		T::LIST.iter().copied().filter(move |f| self.0 & f.bits() != Default::default())
	}
	pub fn len(self) -> usize {
		self.iter().count()
	}
}
impl<T: BitFlag> From<T> for BitFlags<T> {
	fn from(t: T) -> Self {
		BitFlags(t.bits())
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOr<B> for BitFlags<T> {
	type Output = Self;
	fn bitor(self, o: B) -> Self {
		BitFlags(self.0 | o.into().0)
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> BitAnd<B> for BitFlags<T> {
	type Output = Self;
	fn bitand(self, o: B) -> Self {
		BitFlags(self.0 & o.into().0)
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> BitOrAssign<B> for BitFlags<T> {
	fn bitor_assign(&mut self, o: B) {
		self.0 = self.0 | o.into().0
	}
}
impl<T: BitFlag> FromIterator<T> for BitFlags<T> {
	fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
		let mut r = Self::empty();
		for x in i {
			r.insert(x);
		}
		r
	}
}
impl<T: BitFlag> Not for BitFlags<T> {
	type Output = Self;
	fn not(self) -> Self {
		BitFlags(!self.0 & T::ALL)
	}
}
