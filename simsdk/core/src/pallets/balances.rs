//! `pallet_balances`: same account model, freezes, locks and calls as the real pallet (holds and named reserves are not used by this runtime).
use crate::codec::{self, Codec, Decode, Encode, EncodeLike, HasCompact, MaxEncodedLen};
use crate::frame_support::pallet_prelude::*;
use crate::frame_support::traits::tokens::{fungible, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use crate::frame_support::traits::*;
use crate::frame_support::{self};
use crate::frame_system::{self, pallet_prelude::*};
use crate::scale_info::{self, TypeInfo};
use crate::sp_runtime::traits::{Bounded, CheckedAdd, CheckedSub, Saturating, StaticLookup, Zero};
use crate::sp_runtime::{ArithmeticError, DispatchError, TokenError};
pub use pallet::*;
use std::fmt::Debug;
use std::marker::PhantomData;

type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: u128,
}
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> {
	pub id: LockIdentifier,
	pub amount: Balance,
	pub reasons: Reasons,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct IdAmount<Id, Balance> {
	pub id: Id,
	pub amount: Balance,
}
pub mod weights {
	use crate::sp_weights::Weight;
	pub trait WeightInfo {
		fn transfer_allow_death() -> Weight;
		fn transfer_keep_alive() -> Weight;
		fn force_set_balance_creating() -> Weight;
		fn force_set_balance_killing() -> Weight;
		fn force_transfer() -> Weight;
		fn transfer_all() -> Weight;
		fn force_unreserve() -> Weight;
		fn upgrade_accounts(u: u32) -> Weight;
	}
	impl WeightInfo for () {
		fn transfer_allow_death() -> Weight {
			Weight::from_parts(60_000_000, 3593)
		}
		fn transfer_keep_alive() -> Weight {
			Weight::from_parts(47_000_000, 3593)
		}
		fn force_set_balance_creating() -> Weight {
			Weight::from_parts(18_000_000, 3593)
		}
		fn force_set_balance_killing() -> Weight {
			Weight::from_parts(26_000_000, 3593)
		}
		fn force_transfer() -> Weight {
			Weight::from_parts(62_000_000, 6196)
		}
		fn transfer_all() -> Weight {
			Weight::from_parts(55_000_000, 3593)
		}
		fn force_unreserve() -> Weight {
			Weight::from_parts(21_000_000, 3593)
		}
		fn upgrade_accounts(u: u32) -> Weight {
			Weight::from_parts(17_000_000 + 14_000_000 * u as u64, 990)
		}
	}
}
pub use weights::WeightInfo;

#[crate::macros::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type WeightInfo: WeightInfo;
		type Balance: Parameter
			+ Member
			+ crate::frame_support::traits::tokens::Balance
			+ crate::sp_runtime::traits::AtLeast32BitUnsigned
			+ Codec
			+ Default
			+ Copy
			+ Debug
			+ MaxEncodedLen
			+ TypeInfo
			+ crate::sp_runtime::FixedPointOperand;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	#[pallet::getter(fn total_issuance)]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn inactive_issuance)]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config> =
		StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>, ValueQuery>;

	#[pallet::genesis_config]
	#[derive(crate::macros::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(T::Balance::zero(), |a, b| a + b.1);
			TotalIssuance::<T>::put(total);
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				let _ = T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() });
			}
		}
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(
			origin: OriginFor<T>,
			source: AccountIdLookupOf<T>,
			dest: AccountIdLookupOf<T>,
			#[pallet::compact] value: T::Balance,
		) -> DispatchResult {
			ensure_root(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_all())]
		pub fn transfer_all(origin: OriginFor<T>, dest: AccountIdLookupOf<T>, keep_alive: bool) -> DispatchResult {
			let transactor = ensure_signed(origin)?;
			let keep = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as fungible::Inspect<_>>::reducible_balance(&transactor, keep, Fortitude::Polite);
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&transactor, &dest, v, keep)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(T::WeightInfo::force_unreserve())]
		pub fn force_unreserve(origin: OriginFor<T>, who: AccountIdLookupOf<T>, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let _ = (who, amount);
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::force_set_balance_creating().max(T::WeightInfo::force_set_balance_killing()))]
		pub fn force_set_balance(origin: OriginFor<T>, who: AccountIdLookupOf<T>, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let new_free = if new_free < T::ExistentialDeposit::get() { T::Balance::zero() } else { new_free };
			let old = Self::mutate_account_handling_dust(&who, |a| {
				let old = a.free;
				a.free = new_free;
				old
			})?;
			if new_free > old {
				TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(new_free - old));
			} else {
				TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(old - new_free));
			}
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
}

impl<T: Config> Pallet<T> {
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account_data(who.borrow()).free
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account_data(who.borrow()).reserved
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	fn account_data(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	fn try_mutate_account<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<(R, T::Balance), E> {
		let (r, endowed, dust) = T::AccountStore::try_mutate_exists(who, |m| -> Result<_, E> {
			let is_new = m.is_none();
			let mut account = m.take().unwrap_or_default();
			let ed = T::ExistentialDeposit::get();
			let did_provide = account.free >= ed;
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= ed;
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			type S<T> = frame_system::Pallet<T>;
			if !did_provide && does_provide {
				S::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				S::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				S::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				S::<T>::dec_providers(who).map_err(|r| {
					if did_consume && !does_consume {
						let _ = S::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						S::<T>::dec_consumers(who);
					}
					r
				})?;
			}
			let endowed = if is_new { Some(account.free) } else { None };
			if account.free < ed && account.reserved.is_zero() {
				let dust = account.free;
				*m = None;
				if dust.is_zero() {
					return Ok((result, endowed, T::Balance::zero()))
				}
				return Ok((result, endowed, dust))
			}
			*m = Some(account);
			Ok((result, endowed, T::Balance::zero()))
		})?;
		if let Some(e) = endowed {
			Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e });
		}
		if !dust.is_zero() {
			Self::deposit_event(Event::DustLost { account: who.clone(), amount: dust });
		}
		Ok((r, dust))
	}
	fn burn_dust(d: T::Balance) {
		if !d.is_zero() {
			TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(d));
		}
	}
	fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(
		who: &T::AccountId,
		f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>,
	) -> Result<R, E> {
		let (r, d) = Self::try_mutate_account(who, f)?;
		Self::burn_dust(d);
		Ok(r)
	}
	fn mutate_account_handling_dust<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) })
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<(), DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (_, dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			let reduction = a.free.saturating_sub(amount);
			ensure!(reduction <= max_reduction, Error::<T>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		Self::burn_dust(dust);
		Ok(())
	}
	fn update_freezes(
		who: &T::AccountId,
		freezes: crate::sp_core::BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>,
	) -> DispatchResult {
		let mut prev = T::Balance::zero();
		let mut after = T::Balance::zero();
		Self::try_mutate_account_handling_dust(who, |b, _| -> DispatchResult {
			prev = b.frozen;
			b.frozen = T::Balance::zero();
			for l in Locks::<T>::get(who).iter() {
				b.frozen = b.frozen.max(l.amount);
			}
			for l in freezes.iter() {
				b.frozen = b.frozen.max(l.amount);
			}
			after = b.frozen;
			Ok(())
		})?;
		if freezes.is_empty() {
			Freezes::<T>::remove(who);
		} else {
			Freezes::<T>::insert(who, freezes);
		}
		if prev > after {
			Self::deposit_event(Event::Thawed { who: who.clone(), amount: prev - after });
		} else if after > prev {
			Self::deposit_event(Event::Frozen { who: who.clone(), amount: after - prev });
		}
		Ok(())
	}
	fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
		let bounded = crate::sp_core::BoundedVec::<_, T::MaxLocks>::truncate_from(locks.to_vec());
		let _ = Self::mutate_account_handling_dust(who, |b| {
			b.frozen = T::Balance::zero();
			for l in locks.iter() {
				b.frozen = b.frozen.max(l.amount);
			}
			for l in Freezes::<T>::get(who).iter() {
				b.frozen = b.frozen.max(l.amount);
			}
		});
		if locks.is_empty() {
			Locks::<T>::remove(who);
		} else {
			Locks::<T>::insert(who, bounded);
		}
	}
	// --- fee payment (the `Currency` interface used by transaction payment)
	pub fn withdraw_fee(who: &T::AccountId, value: T::Balance) -> Result<NegativeImbalance<T>, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance(T::Balance::zero(), PhantomData))
		}
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<(), DispatchError> {
			let new_free = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			let ed = T::ExistentialDeposit::get();
			let would_be_dead = new_free < ed;
			let would_kill = would_be_dead && a.free >= ed;
			ensure!(!would_kill, Error::<T>::Expendability);
			ensure!(new_free >= a.frozen, Error::<T>::LiquidityRestrictions);
			a.free = new_free;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
			Ok(())
		})?;
		Ok(NegativeImbalance(value, PhantomData))
	}
	pub fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<(), DispatchError> {
		if value.is_zero() {
			return Ok(())
		}
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<(), DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(())
		})
	}
}
/// Funds withdrawn and not yet given anywhere; dropped means burned.
pub struct NegativeImbalance<T: Config>(T::Balance, PhantomData<T>);
impl<T: Config> NegativeImbalance<T> {
	pub fn peek(&self) -> T::Balance {
		self.0
	}
	/// Takes `v` out of it, undropped.
	pub fn take(&mut self, v: T::Balance) -> T::Balance {
		let x = v.min(self.0);
		self.0 = self.0 - x;
		x
	}
}
impl<T: Config> Imbalance<T::Balance> for NegativeImbalance<T> {
	fn peek(&self) -> T::Balance {
		self.0
	}
}
impl<T: Config> Default for NegativeImbalance<T> {
	fn default() -> Self {
		NegativeImbalance(T::Balance::zero(), PhantomData)
	}
}
impl<T: Config> Drop for NegativeImbalance<T> {
	fn drop(&mut self) {
		if !self.0.is_zero() && crate::storage::is_available() && !std::thread::panicking() {
			TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(self.0));
		}
	}
}

impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account_data(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account_data(who).free
	}
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account_data(who);
		let mut untouchable = T::Balance::zero();
		if f == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if p == Preservation::Preserve
			|| p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1
			|| p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(T::ExistentialDeposit::get());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, provenance: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success
		}
		if provenance == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow
		}
		let a = Self::account_data(who);
		let new_free = match a.free.checked_add(&amount) {
			None => return DepositConsequence::Overflow,
			Some(x) if x < T::ExistentialDeposit::get() => return DepositConsequence::BelowMinimum,
			Some(x) => x,
		};
		match a.reserved.checked_add(&new_free) {
			Some(_) => {},
			None => return DepositConsequence::Overflow,
		};
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow
		}
		let a = Self::account_data(who);
		let new_free = match a.free.checked_sub(&amount) {
			None => return WithdrawConsequence::BalanceLow,
			Some(x) => x,
		};
		let liquid = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen
		}
		let ed = T::ExistentialDeposit::get();
		let success = if new_free < ed {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		};
		let new_total = new_free.saturating_add(a.reserved);
		if new_total < a.frozen {
			return WithdrawConsequence::Frozen
		}
		success
	}
}
impl<T: Config> Pallet<T> {
	fn increase_balance(who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
		let old = <Self as fungible::Inspect<_>>::balance(who);
		let new = old.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		if new < T::ExistentialDeposit::get() {
			return Err(TokenError::BelowMinimum.into())
		}
		if old != new {
			Self::write_balance(who, new)?;
		}
		Ok(amount)
	}
	fn decrease_balance(who: &T::AccountId, mut amount: T::Balance, pr: Precision, p: Preservation, f: Fortitude) -> Result<T::Balance, DispatchError> {
		let old = <Self as fungible::Inspect<_>>::balance(who);
		let free = <Self as fungible::Inspect<_>>::reducible_balance(who, p, f);
		if let Precision::BestEffort = pr {
			amount = amount.min(free);
		}
		let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		ensure!(free >= amount, TokenError::FundsUnavailable);
		Self::write_balance(who, new)?;
		Ok(old.saturating_sub(new).min(old))
	}
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
		TotalIssuance::<T>::get().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(who, amount)?;
		TotalIssuance::<T>::mutate(|t| *t += actual);
		Self::deposit_event(Event::Minted { who: who.clone(), amount });
		Ok(actual)
	}
	fn burn_from(who: &T::AccountId, amount: T::Balance, pr: Precision, f: Fortitude) -> Result<T::Balance, DispatchError> {
		let actual = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, f).min(amount);
		ensure!(actual == amount || pr == Precision::BestEffort, TokenError::FundsUnavailable);
		TotalIssuance::<T>::get().checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::decrease_balance(who, actual, Precision::BestEffort, Preservation::Expendable, f)?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(actual));
		Self::deposit_event(Event::Burned { who: who.clone(), amount: actual });
		Ok(actual)
	}
	fn transfer(from: &T::AccountId, to: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		let _ = <Self as fungible::Inspect<_>>::can_withdraw(from, amount).into_result(p != Preservation::Expendable)?;
		<Self as fungible::Inspect<_>>::can_deposit(to, amount, Provenance::Extant).into_result()?;
		if from == to {
			return Ok(amount)
		}
		Self::decrease_balance(from, amount, Precision::BestEffort, p, Fortitude::Polite)?;
		let _ = Self::increase_balance(to, amount);
		Self::deposit_event(Event::Transfer { from: from.clone(), to: to.clone(), amount });
		Ok(amount)
	}
	fn set_balance(who: &T::AccountId, amount: T::Balance) -> T::Balance {
		let b = <Self as fungible::Inspect<_>>::balance(who);
		if b < amount {
			let d = amount - b;
			match <Self as fungible::Mutate<_>>::mint_into(who, d) {
				Ok(d) => b.saturating_add(d),
				Err(_) => b,
			}
		} else {
			match <Self as fungible::Mutate<_>>::burn_from(who, b - amount, Precision::BestEffort, Fortitude::Force) {
				Ok(d) => b.saturating_sub(d),
				Err(_) => b,
			}
		}
	}
}
impl<T: Config> fungible::InspectFreeze<T::AccountId> for Pallet<T>
where
	T::FreezeIdentifier: TypeInfo + 'static,
{
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T>::get(who).iter().find(|l| &l.id == id).map_or(Zero::zero(), |l| l.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let l = Freezes::<T>::get(who);
		!l.is_full() || l.into_iter().any(|x| &x.id == id)
	}
}
impl<T: Config> fungible::MutateFreeze<T::AccountId> for Pallet<T>
where
	T::FreezeIdentifier: TypeInfo + 'static,
{
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Self::thaw(id, who)
		}
		let mut locks = Freezes::<T>::get(who);
		if let Some(i) = locks.iter_mut().find(|x| &x.id == id) {
			i.amount = amount;
		} else {
			locks.try_push(IdAmount { id: *id, amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, locks)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(())
		}
		let mut locks = Freezes::<T>::get(who);
		if let Some(i) = locks.iter_mut().find(|x| &x.id == id) {
			i.amount = i.amount.max(amount);
		} else {
			locks.try_push(IdAmount { id: *id, amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, locks)
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut locks = Freezes::<T>::get(who);
		locks.retain(|l| &l.id != id);
		Self::update_freezes(who, locks)
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = ();
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		<Self as fungible::Inspect<_>>::total_balance(who)
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account_data(who).free
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	fn transfer(from: &T::AccountId, to: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		let p = if e == ExistenceRequirement::KeepAlive { Preservation::Preserve } else { Preservation::Expendable };
		<Self as fungible::Mutate<_>>::transfer(from, to, v, p).map(|_| ())
	}
	fn deposit_creating(who: &T::AccountId, v: T::Balance) {
		let _ = <Self as fungible::Mutate<_>>::mint_into(who, v);
	}
	fn make_free_balance_be(who: &T::AccountId, v: T::Balance) {
		<Self as fungible::Mutate<_>>::set_balance(who, v);
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, _r: WithdrawReasons) {
		if amount.is_zero() {
			return
		}
		let mut l: Vec<_> = Locks::<T>::get(who).into_inner().into_iter().filter(|l| l.id != id).collect();
		l.push(BalanceLock { id, amount, reasons: Reasons::All });
		Self::update_locks(who, &l);
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, r: WithdrawReasons) {
		let cur = Locks::<T>::get(who).iter().find(|l| l.id == id).map(|l| l.amount).unwrap_or_default();
		Self::set_lock(id, who, cur.max(amount), r)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let l: Vec<_> = Locks::<T>::get(who).into_inner().into_iter().filter(|l| l.id != id).collect();
		Self::update_locks(who, &l);
	}
}
