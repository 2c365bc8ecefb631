//! `sp_weights`
use crate::codec::{self, *};
use crate::macros::{Decode, Encode, MaxEncodedLen};
use crate::scale_info::{self, TypeInfo};
pub use crate::sp_runtime::arith::Perbill;
use crate::sp_runtime::traits::{BaseArithmetic, Saturating, SaturatedConversion, Unsigned, Zero, Get};
use ::serde::{Deserialize, Serialize};
use std::ops::*;

pub mod constants {
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	use super::*;
	pub struct RocksDbWeight;
	impl Get<RuntimeDbWeight> for RocksDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * WEIGHT_REF_TIME_PER_NANOS, write: 100_000 * WEIGHT_REF_TIME_PER_NANOS }
		}
	}
	pub type ParityDbWeight = RocksDbWeight;
	pub struct BlockExecutionWeight;
	impl Get<Weight> for BlockExecutionWeight {
		fn get() -> Weight {
			Weight::from_parts(390_584 * WEIGHT_REF_TIME_PER_NANOS, 0)
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl Get<Weight> for ExtrinsicBaseWeight {
		fn get() -> Weight {
			Weight::from_parts(124_706 * WEIGHT_REF_TIME_PER_NANOS, 0)
		}
	}
}

#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, Serialize, Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub fn ref_time_mut(&mut self) -> &mut u64 {
		&mut self.ref_time
	}
	pub fn proof_size_mut(&mut self) -> &mut u64 {
		&mut self.proof_size
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn without_ref_time(&self) -> Self {
		Self { ref_time: 0, proof_size: self.proof_size }
	}
	pub const fn without_proof_size(&self) -> Self {
		Self { ref_time: self.ref_time, proof_size: 0 }
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / (s + (s == 0) as u64), proof_size: self.proof_size / (s + (s == 0) as u64) }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o);
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o);
	}
	pub const fn add(self, o: &Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub const fn checked_mul(self, s: u64) -> Option<Self> {
		match (self.ref_time.checked_mul(s), self.proof_size.checked_mul(s)) {
			(Some(a), Some(b)) => Some(Self { ref_time: a, proof_size: b }),
			_ => None,
		}
	}
	pub const fn add_proof_size(self, s: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size + s }
	}
	pub const fn add_ref_time(self, s: u64) -> Self {
		Self { ref_time: self.ref_time + s, proof_size: self.proof_size }
	}
	pub fn min(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Weight::zero()
	}
	fn is_zero(&self) -> bool {
		self.ref_time == 0 && self.proof_size == 0
	}
}
impl From<u64> for Weight {
	fn from(v: u64) -> Self {
		Weight::from_parts(v, 0)
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o;
	}
}
impl Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, b: u64) -> Self {
		Self { ref_time: self.ref_time * b, proof_size: self.proof_size * b }
	}
}
impl Mul<Weight> for u64 {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		b * self
	}
}
impl Mul<Weight> for u32 {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		b * (self as u64)
	}
}
impl Mul<u32> for Weight {
	type Output = Weight;
	fn mul(self, b: u32) -> Weight {
		self * (b as u64)
	}
}
impl Mul<Weight> for Perbill {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size }
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, b: u64) -> Self {
		Self { ref_time: self.ref_time / b, proof_size: self.proof_size / b }
	}
}
impl std::fmt::Display for Weight {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Default, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}

#[derive(Clone, Encode, Decode, TypeInfo)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = smallvec::SmallVec<[WeightToFeeCoefficient<T>; 4]>;
impl<Balance: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFeeCoefficient<Balance> {
	pub fn saturating_eval(&self, mut result: Balance, x: Balance) -> Balance {
		let power = Saturating::saturating_pow(x, self.degree.into());
		let frac = self.coeff_frac * power;
		let integer = Saturating::saturating_mul(self.coeff_integer, power);
		if self.negative {
			result = Saturating::saturating_sub(result, frac);
			result = Saturating::saturating_sub(result, integer);
		} else {
			result = Saturating::saturating_add(result, frac);
			result = Saturating::saturating_add(result, integer);
		}
		result
	}
}
pub trait WeightToFee {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = <Self as WeightToFeePolynomial>::Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance {
		Self::polynomial()
			.iter()
			.fold(Self::Balance::saturated_from(0u32), |acc, term| term.saturating_eval(acc, Self::Balance::saturated_from(weight.ref_time())))
	}
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		T::saturated_from(weight.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		Saturating::saturating_mul(T::saturated_from(weight.ref_time()), M::get())
	}
}
