use super::*;
use crate::sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize};
use crate::sp_runtime::{ArithmeticError, FixedPointOperand, TokenError};
pub trait Balance:
	AtLeast32BitUnsigned + FullCodecB + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + MaybeSerializeDeserialize + 'static + FixedPointOperand
{
}
pub trait FullCodecB: Codec + EncodeLike {}
impl<T: Codec + EncodeLike> FullCodecB for T {}
impl<T: AtLeast32BitUnsigned + FullCodecB + Copy + Default + Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + FixedPointOperand> Balance for T {}

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Preservation {
	Expendable,
	Protect,
	Preserve,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Fortitude {
	Polite,
	Force,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Precision {
	Exact,
	BestEffort,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Provenance {
	Minted,
	Extant,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum Restriction {
	Free,
	OnHold,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(PartialEq, Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(pub i8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn all() -> Self {
		Self(31)
	}
}
pub trait Imbalance<B> {
	fn peek(&self) -> B;
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum WithdrawConsequence<B> {
	BalanceLow,
	WouldDie,
	UnknownAsset,
	Underflow,
	Overflow,
	Frozen,
	ReducedToZero(B),
	Success,
}
impl<B: crate::sp_runtime::traits::Zero> WithdrawConsequence<B> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
		use WithdrawConsequence::*;
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
			ReducedToZero(r) => Ok(r),
			Success => Ok(B::zero()),
		}
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum DepositConsequence {
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Overflow,
	Success,
	Blocked,
}
impl DepositConsequence {
	pub fn into_result(self) -> Result<(), DispatchError> {
		use DepositConsequence::*;
		Err(match self {
			BelowMinimum => TokenError::BelowMinimum.into(),
			CannotCreate => TokenError::CannotCreate.into(),
			UnknownAsset => TokenError::UnknownAsset.into(),
			Overflow => ArithmeticError::Overflow.into(),
			Blocked => TokenError::Blocked.into(),
			Success => return Ok(()),
		})
	}
}
pub trait GetSalary {}
pub mod currency {
	pub use super::super::{Currency, LockableCurrency};
}
pub mod fungible {
	use super::*;
	pub trait Inspect<AccountId>: Sized {
		type Balance: Balance;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance {
			Self::total_issuance()
		}
		fn minimum_balance() -> Self::Balance;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn balance(who: &AccountId) -> Self::Balance;
		fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
		fn can_deposit(who: &AccountId, amount: Self::Balance, p: Provenance) -> DepositConsequence;
		fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
		fn burn_from(who: &AccountId, amount: Self::Balance, pr: Precision, f: Fortitude) -> Result<Self::Balance, DispatchError>;
		fn transfer(from: &AccountId, to: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
		fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance;
	}
	pub trait InspectFreeze<AccountId>: Inspect<AccountId> {
		type Id: Encode + TypeInfo + 'static;
		fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(who: &AccountId) -> Self::Balance {
			Self::total_balance(who)
		}
		fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait MutateFreeze<AccountId>: InspectFreeze<AccountId> {
		fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, f: Fortitude) -> DispatchResult {
			if f == Fortitude::Polite && amount > Self::balance_freezable(who) {
				return Err(TokenError::FundsUnavailable.into())
			}
			Self::set_freeze(id, who, amount)
		}
		fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, f: Fortitude) -> DispatchResult {
			if f == Fortitude::Polite && amount > Self::balance_freezable(who) {
				return Err(TokenError::FundsUnavailable.into())
			}
			Self::extend_freeze(id, who, amount)
		}
		fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = crate::sp_runtime::traits::CheckedAdd::checked_add(&Self::balance_frozen(id, who), &amount).ok_or(ArithmeticError::Overflow)?;
			Self::set_freeze(id, who, a)
		}
		fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = crate::sp_runtime::traits::CheckedSub::checked_sub(&Self::balance_frozen(id, who), &amount).ok_or(ArithmeticError::Underflow)?;
			Self::set_freeze(id, who, a)
		}
	}
	pub trait Balanced<AccountId>: Inspect<AccountId> {}
	pub struct HoldConsideration<A, F, R, D, X = ()>(std::marker::PhantomData<(A, F, R, D, X)>);
	pub struct Credit<A, B>(std::marker::PhantomData<(A, B)>);
}

pub struct PayFromAccount<A, B>(std::marker::PhantomData<(A, B)>);
pub struct UnityAssetBalanceConversion;
