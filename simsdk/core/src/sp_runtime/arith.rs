//! Parts-per-x and fixed point arithmetic with Substrate's rounding rules.
use super::traits::*;
pub use super::traits::SaturatedConversion;
use crate::codec::{self, *};
use crate::macros::{CompactAs, Decode, Encode, MaxEncodedLen};
use crate::scale_info::{self, TypeInfo};
use ::serde::{Deserialize, Serialize};
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
fn muldiv(a: u128, b: u128, c: u128, r: Rounding) -> u128 {
	// a * b / c without overflow: 256 bit product
	let (hi, lo) = mul_wide(a, b);
	let (q, rem) = div_wide(hi, lo, c);
	let up = match r {
		Rounding::Down => false,
		Rounding::Up => rem > 0,
		Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
		Rounding::NearestPrefDown => rem > c / 2,
	};
	if up {
		q.saturating_add(1)
	} else {
		q
	}
}
fn mul_wide(a: u128, b: u128) -> (u128, u128) {
	const M: u128 = u64::MAX as u128;
	let (ah, al, bh, bl) = (a >> 64, a & M, b >> 64, b & M);
	let ll = al * bl;
	let lh = al * bh;
	let hl = ah * bl;
	let hh = ah * bh;
	let mid = (ll >> 64) + (lh & M) + (hl & M);
	(hh + (lh >> 64) + (hl >> 64) + (mid >> 64), (ll & M) | (mid << 64))
}
fn div_wide(hi: u128, lo: u128, d: u128) -> (u128, u128) {
	if hi == 0 {
		return (lo / d, lo % d)
	}
	if hi >= d {
		return (u128::MAX, 0)
	}
	let mut rem = hi;
	let mut q = 0u128;
	for i in (0..128).rev() {
		let carry = rem >> 127;
		rem = (rem << 1) | ((lo >> i) & 1);
		q <<= 1;
		if carry == 1 || rem >= d {
			rem = rem.wrapping_sub(d);
			q |= 1;
		}
	}
	(q, rem)
}
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 {
		return None
	}
	Some(muldiv(a, b, c, r))
}
pub trait PerThing: Sized + Copy + Saturating {
	type Inner: Into<u128>;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(p: Self::Inner) -> Self;
}
macro_rules! per {
	($n:ident, $t:ty, $max:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs, Serialize, Deserialize)]
		pub struct $n($t);
		impl $n {
			pub const ACC: u128 = $max;
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub const fn from_parts(p: $t) -> Self {
				$n([p, $max][(p > $max) as usize])
			}
			pub const fn from_percent(x: $t) -> Self {
				Self(([x, 100][(x > 100) as usize] as u128 * $max as u128 / 100) as $t)
			}
			pub const fn one() -> Self {
				$n($max)
			}
			pub const fn zero() -> Self {
				$n(0)
			}
			pub const fn is_one(&self) -> bool {
				self.0 == $max
			}
			pub const fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub fn from_float(x: f64) -> Self {
				Self((x.max(0.).min(1.) * $max as f64) as $t)
			}
			pub fn from_rational<N: UniqueSaturatedInto<u128>>(p: N, q: N) -> Self {
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				let q = q.max(1);
				let p = p.min(q);
				Self(muldiv(p, $max as u128, q, Rounding::Down) as $t)
			}
			fn apply<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded>(self, n: N, r: Rounding) -> N {
				let n: u128 = n.unique_saturated_into();
				muldiv(n, self.0 as u128, $max as u128, r).try_into().unwrap_or_else(|_| N::max_value())
			}
			pub fn mul_floor<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded>(self, n: N) -> N {
				self.apply(n, Rounding::Down)
			}
			pub fn mul_ceil<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded>(self, n: N) -> N {
				self.apply(n, Rounding::Up)
			}
			pub fn saturating_reciprocal_mul<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded>(self, n: N) -> N {
				let n: u128 = n.unique_saturated_into();
				if self.0 == 0 { return N::max_value() }
				muldiv(n, $max as u128, self.0 as u128, Rounding::NearestPrefUp).try_into().unwrap_or_else(|_| N::max_value())
			}
			pub fn saturating_reciprocal_mul_floor<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded>(self, n: N) -> N {
				let n: u128 = n.unique_saturated_into();
				if self.0 == 0 { return N::max_value() }
				muldiv(n, $max as u128, self.0 as u128, Rounding::Down).try_into().unwrap_or_else(|_| N::max_value())
			}
			pub fn left_from_one(self) -> Self {
				$n($max - self.0)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				Self::from_parts(self.0.saturating_add(o.0))
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				Self(self.0.saturating_sub(o.0))
			}
			pub fn int_mul(self, b: $t) -> Self {
				Self::from_parts(self.0.saturating_mul(b))
			}
		}
		/// Multiplication with an integer rounds to the nearest (ties down).
		impl<N: UniqueSaturatedInto<u128> + TryFrom<u128> + Bounded> Mul<N> for $n {
			type Output = N;
			fn mul(self, n: N) -> N {
				self.apply(n, Rounding::NearestPrefDown)
			}
		}
	};
}
per!(Percent, u8, 100);
per!(PerU16, u16, 65535);
per!(Permill, u32, 1_000_000);
per!(Perbill, u32, 1_000_000_000);
per!(Perquintill, u64, 1_000_000_000_000_000_000);

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg {}
impl<T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg> FixedPointOperand for T {}

pub trait FixedPointNumber: Sized {
	type Inner;
	const DIV: Self::Inner;
	fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self;
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self;
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N;
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N>;
	fn into_inner(self) -> Self::Inner;
	fn from_inner(i: Self::Inner) -> Self;
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Debug, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs, Serialize, Deserialize)]
pub struct FixedU128(u128);
pub type FixedI128 = FixedU128;
impl FixedU128 {
	pub const D: u128 = 1_000_000_000_000_000_000;
	pub const fn from_u32(n: u32) -> Self {
		FixedU128(n as u128 * Self::D)
	}
	pub const fn one() -> Self {
		FixedU128(Self::D)
	}
	pub fn from_rational(a: u128, b: u128) -> Self {
		FixedU128(muldiv(a, Self::D, b, Rounding::NearestPrefDown))
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		FixedU128(muldiv(self.0, o.0, Self::D, Rounding::Down))
	}
	pub fn saturating_add(self, o: Self) -> Self {
		FixedU128(self.0.saturating_add(o.0))
	}
	pub fn saturating_sub(self, o: Self) -> Self {
		FixedU128(self.0.saturating_sub(o.0))
	}
	pub fn is_zero(&self) -> bool {
		self.0 == 0
	}
}
impl FixedPointNumber for FixedU128 {
	type Inner = u128;
	const DIV: u128 = Self::D;
	fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self {
		let n: u128 = n.unique_saturated_into();
		FixedU128(n.saturating_mul(Self::D))
	}
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
		FixedU128(muldiv(n.unique_saturated_into(), Self::D, d.unique_saturated_into(), Rounding::Down))
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or_else(N::max_value)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let n: u128 = n.unique_saturated_into();
		muldiv(self.0, n, Self::D, Rounding::Down).try_into().ok()
	}
	fn into_inner(self) -> u128 {
		self.0
	}
	fn from_inner(i: u128) -> Self {
		FixedU128(i)
	}
}
