//! `pallet_transaction_payment`
use crate::codec::{self, FullCodec, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::dispatch::*;
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{
	AtLeast32BitUnsigned, CheckedSub, Convert, DispatchInfoOf, Dispatchable, One, PostDispatchInfoOf, SaturatedConversion, Saturating, SignedExtension, UniqueSaturatedInto, Zero,
};
use crate::sp_runtime::{DispatchError, FixedPointNumber, FixedPointOperand, FixedU128};
use crate::sp_weights::{WeightToFee, Weight};
use ::serde::{Deserialize, Serialize};
pub use pallet::*;
use std::fmt::Debug;
use std::marker::PhantomData;

pub type Multiplier = FixedU128;
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;

#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InclusionFee<Balance> {
	pub base_fee: Balance,
	pub len_fee: Balance,
	pub adjusted_weight_fee: Balance,
}
impl<Balance: AtLeast32BitUnsigned + Copy> InclusionFee<Balance> {
	pub fn inclusion_fee(&self) -> Balance {
		self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FeeDetails<Balance> {
	pub inclusion_fee: Option<InclusionFee<Balance>>,
	#[serde(skip)]
	pub tip: Balance,
}
impl<Balance: AtLeast32BitUnsigned + Copy> FeeDetails<Balance> {
	pub fn final_fee(&self) -> Balance {
		self.inclusion_fee.as_ref().map(|i| i.inclusion_fee()).unwrap_or_else(|| Balance::zero()).saturating_add(self.tip)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, Default, TypeInfo)]
pub struct RuntimeDispatchInfo<Balance> {
	pub weight: Weight,
	pub class: DispatchClass,
	pub partial_fee: Balance,
}
pub trait OnChargeTransaction<T: Config> {
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + TypeInfo + FixedPointOperand;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		info: &DispatchInfoOf<T::RuntimeCall>,
		post: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: Self::Balance,
		tip: Self::Balance,
		already: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}
use super::balances;
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T, B> OnChargeTransaction<T> for CurrencyAdapter<balances::Pallet<B>, ()>
where
	T: Config,
	B: balances::Config + frame_system::Config<AccountId = <T as frame_system::Config>::AccountId>,
{
	type Balance = B::Balance;
	type LiquidityInfo = Option<balances::NegativeImbalance<B>>;
	fn withdraw_fee(
		who: &T::AccountId,
		_call: &T::RuntimeCall,
		_info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		_tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		match balances::Pallet::<B>::withdraw_fee(who, fee) {
			Ok(i) => Ok(Some(i)),
			Err(_) => Err(InvalidTransaction::Payment.into()),
		}
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_info: &DispatchInfoOf<T::RuntimeCall>,
		_post: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: Self::Balance,
		_tip: Self::Balance,
		already: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(mut paid) = already {
			let refund = paid.peek().saturating_sub(corrected);
			if !refund.is_zero() && balances::Pallet::<B>::deposit_into_existing(who, refund).is_ok() {
				paid.take(refund);
			}
			// the rest goes to `()`: burned
			drop(paid);
		}
		Ok(())
	}
}
#[derive(Encode, Decode, Clone, Copy, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
enum Releases {
	V1Ancient,
	V2,
}
pub struct ConstFeeMultiplier<M>(PhantomData<M>);
pub trait MultiplierUpdate: Convert<Multiplier, Multiplier> {}
impl<M: Get<Multiplier>> MultiplierUpdate for ConstFeeMultiplier<M> {}
impl<M: Get<Multiplier>> Convert<Multiplier, Multiplier> for ConstFeeMultiplier<M> {
	fn convert(_: Multiplier) -> Multiplier {
		M::get()
	}
}
impl MultiplierUpdate for () {}
/// `TargetedFeeAdjustment` with fixed parameters (the relay chain's slow adjustment).
pub struct SlowAdjusting<R>(PhantomData<R>);
impl<T: frame_system::Config> MultiplierUpdate for SlowAdjusting<T> {}
impl<T: frame_system::Config> Convert<Multiplier, Multiplier> for SlowAdjusting<T> {
	fn convert(previous: Multiplier) -> Multiplier {
		// multiplier never below 1/1_000_000; v = 3 / 100_000; target 25 %
		let min = Multiplier::saturating_from_rational(1u128, 1_000_000u128);
		let previous = previous.max(min);
		let w = T::BlockWeights::get();
		let normal_max = w.get(DispatchClass::Normal).max_total.unwrap_or(w.max_block);
		let cur = frame_system::Pallet::<T>::block_weight();
		let cur = *cur.get(DispatchClass::Normal);
		let frac = |c: u64, m: u64| if m == 0 { Multiplier::saturating_from_integer(0u128) } else { Multiplier::saturating_from_rational(c.min(m) as u128, m as u128) };
		let a = frac(cur.ref_time(), normal_max.ref_time());
		let b = frac(cur.proof_size(), normal_max.proof_size());
		let s = a.max(b);
		let target = Multiplier::saturating_from_rational(25u128, 100u128);
		let v = Multiplier::saturating_from_rational(3u128, 100_000u128);
		let (pos, diff) = if s >= target { (true, s.saturating_sub(target)) } else { (false, target.saturating_sub(s)) };
		let first = v.saturating_mul(diff);
		let second = v.saturating_mul(v).saturating_mul(diff.saturating_mul(diff)).saturating_mul(Multiplier::saturating_from_rational(1u128, 2u128));
		if pos {
			previous.saturating_add(previous.saturating_mul(first.saturating_add(second)))
		} else {
			previous.saturating_sub(previous.saturating_mul(first.saturating_sub(second))).max(min)
		}
	}
}

#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = <<Self as Config>::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
		type LengthToFee: WeightToFee<Balance = <<Self as Config>::OnChargeTransaction as OnChargeTransaction<Self>>::Balance>;
		type FeeMultiplierUpdate: MultiplierUpdate;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type NextFeeMultiplierRaw<T: Config> = StorageValue<_, Multiplier>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> },
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
		fn on_finalize(_: BlockNumberFor<T>) {
			NextFeeMultiplierRaw::<T>::put(T::FeeMultiplierUpdate::convert(Pallet::<T>::next_fee_multiplier()));
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn next_fee_multiplier() -> Multiplier {
		NextFeeMultiplierRaw::<T>::get().unwrap_or(Multiplier::saturating_from_integer(1u128))
	}
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_details(len, info, tip).final_fee()
	}
	pub fn compute_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> FeeDetails<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		Self::compute_fee_raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class).final_fee()
	}
	fn compute_fee_raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> FeeDetails<BalanceOf<T>> {
		if pays == Pays::Yes {
			let unadjusted = Self::weight_to_fee(weight);
			let multiplier = Self::next_fee_multiplier();
			let adjusted_weight_fee = multiplier.saturating_mul_int(unadjusted);
			let len_fee = Self::length_to_fee(len);
			let base_fee = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
			FeeDetails { inclusion_fee: Some(InclusionFee { base_fee, len_fee, adjusted_weight_fee }), tip }
		} else {
			FeeDetails { inclusion_fee: None, tip }
		}
	}
	pub fn length_to_fee(len: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0))
	}
	pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
		T::WeightToFee::weight_to_fee(&w.min(T::BlockWeights::get().max_block))
	}
	pub fn query_info<E: crate::sp_runtime::traits::Extrinsic + GetDispatchInfo>(x: E, len: u32) -> RuntimeDispatchInfo<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		let info = GetDispatchInfo::get_dispatch_info(&x);
		let partial_fee = if x.is_signed().unwrap_or(false) { Self::compute_fee(len, &info, 0u32.into()) } else { 0u32.into() };
		RuntimeDispatchInfo { weight: info.weight, class: info.class, partial_fee }
	}
	pub fn query_fee_details<E: crate::sp_runtime::traits::Extrinsic + GetDispatchInfo>(x: E, len: u32) -> FeeDetails<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		let info = GetDispatchInfo::get_dispatch_info(&x);
		if x.is_signed().unwrap_or(false) {
			Self::compute_fee_details(len, &info, 0u32.into())
		} else {
			FeeDetails { inclusion_fee: None, tip: 0u32.into() }
		}
	}
}

#[derive(Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>);
impl<T: Config> Clone for ChargeTransactionPayment<T> {
	fn clone(&self) -> Self {
		ChargeTransactionPayment(self.0)
	}
}
impl<T: Config> PartialEq for ChargeTransactionPayment<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: Config> Eq for ChargeTransactionPayment<T> {}
impl<T: Config> Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: BalanceOf<T>, final_fee: BalanceOf<T>) -> TransactionPriority {
		let max_block_weight = T::BlockWeights::get().max_block;
		let max_block_length = *T::BlockLength::get().max.get(info.class) as u64;
		let bounded_weight = info.weight.max(Weight::from_parts(1, 1)).min(max_block_weight);
		let bounded_length = (len as u64).clamp(1, max_block_length);
		let max_tx_per_block_weight = std::cmp::min(
			max_block_weight.ref_time() / bounded_weight.ref_time().max(1),
			max_block_weight.proof_size() / bounded_weight.proof_size().max(1),
		);
		let max_tx_per_block_length = max_block_length / bounded_length;
		let max_tx_per_block: BalanceOf<T> = max_tx_per_block_length.min(max_tx_per_block_weight).saturated_into::<BalanceOf<T>>();
		let tip = tip.saturating_add(One::one());
		let scaled_tip = tip.saturating_mul(max_tx_per_block);
		let p = match info.class {
			DispatchClass::Normal => scaled_tip,
			DispatchClass::Mandatory => scaled_tip,
			DispatchClass::Operational => {
				let m: BalanceOf<T> = (T::OperationalFeeMultiplier::get() as u32).into();
				let virtual_tip = final_fee.saturating_mul(m);
				scaled_tip.saturating_add(virtual_tip.saturating_mul(max_tx_per_block))
			},
		};
		p.saturated_into::<TransactionPriority>()
	}
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		len: usize,
	) -> Result<(BalanceOf<T>, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
		T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.0).map(|i| (fee, i))
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	BalanceOf<T>: Send + Sync + From<u64>,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, T::AccountId, <T::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &T::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
		let (final_fee, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, final_fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_, i) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), i))
	}
	fn post_dispatch(
		maybe_pre: Option<Self::Pre>,
		info: &DispatchInfoOf<Self::Call>,
		post: &PostDispatchInfoOf<Self::Call>,
		len: usize,
		_r: &DispatchResult,
	) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = maybe_pre {
			let actual_fee = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual_fee, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee, tip });
		}
		Ok(())
	}
}
