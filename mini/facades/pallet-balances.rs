//deps: frame-support frame-system sp-runtime sp-core sp-std
//! pallet_balances as in polkadot v1.6.0, reduced to what a runtime with locks and freezes needs
extern crate self as pallet_balances;
use frame_support::traits::tokens::{
	fungible, DepositConsequence, Fortitude, IdAmount, Precision, Preservation, Provenance, WithdrawConsequence,
};
use frame_support::traits::{
	BuildGenesisConfig, Currency, ExistenceRequirement, Get, Imbalance, LockIdentifier, LockableCurrency, StoredMap, WithdrawReasons,
};
use frame_support::weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{Bounded, CheckedAdd, CheckedSub, Saturating, StaticLookup, Zero};
use frame_support::dispatch::DispatchResult;
use sp_runtime::{ArithmeticError, DispatchError, TokenError};
use std::marker::PhantomData;
pub use pallet::*;

#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum Reasons {
	Fee = 0,
	Misc = 1,
	All = 2,
}
impl From<WithdrawReasons> for Reasons {
	fn from(r: WithdrawReasons) -> Reasons {
		if r == WithdrawReasons::TRANSACTION_PAYMENT {
			Reasons::Fee
		} else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) {
			Reasons::All
		} else {
			Reasons::Misc
		}
	}
}
#[derive(Clone, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct BalanceLock<Balance> {
	pub id: LockIdentifier,
	pub amount: Balance,
	pub reasons: Reasons,
}
#[derive(Clone, Copy, Eq, PartialEq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct ExtraFlags(u128);
impl Default for ExtraFlags {
	fn default() -> Self {
		Self(0x80000000_00000000_00000000_00000000u128)
	}
}
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountData<Balance> {
	pub free: Balance,
	pub reserved: Balance,
	pub frozen: Balance,
	pub flags: ExtraFlags,
}
pub trait WeightInfo {
	fn transfer_allow_death() -> Weight {
		Weight::from_parts(62_000_000, 3593)
	}
	fn transfer_keep_alive() -> Weight {
		Weight::from_parts(50_000_000, 3593)
	}
	fn force_set_balance_creating() -> Weight {
		Weight::from_parts(23_000_000, 3593)
	}
	fn force_transfer() -> Weight {
		Weight::from_parts(68_000_000, 6196)
	}
	fn transfer_all() -> Weight {
		Weight::from_parts(65_000_000, 3593)
	}
	fn force_set_balance_killing() -> Weight {
		Weight::from_parts(23_000_000, 3593)
	}
	fn force_unreserve() -> Weight {
		Weight::from_parts(23_000_000, 3593)
	}
	fn upgrade_accounts(_: u32) -> Weight {
		Weight::from_parts(23_000_000, 3593)
	}
}
impl WeightInfo for () {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + frame_support::traits::tokens::Balance + MaybeSerializeDeserialize + Copy;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier: Parameter + Member + MaxEncodedLen + Copy;
		type MaxLocks: Get<u32>;
		type MaxReserves: Get<u32>;
		type MaxHolds: Get<u32>;
		type MaxFreezes: Get<u32>;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(PhantomData<T>);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> {
		VestingBalance,
		LiquidityRestrictions,
		InsufficientBalance,
		ExistentialDeposit,
		Expendability,
		ExistingVestingSchedule,
		DeadAccount,
		TooManyReserves,
		TooManyHolds,
		TooManyFreezes,
	}
	#[pallet::storage]
	#[pallet::getter(fn total_issuance)]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
	#[pallet::storage]
	pub type Freezes<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>, ValueQuery>;

	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> {
		pub balances: Vec<(T::AccountId, T::Balance)>,
	}
	impl<T: Config> Default for GenesisConfig<T> {
		fn default() -> Self {
			Self { balances: Default::default() }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, &(_, n)| a + n);
			TotalIssuance::<T>::put(total);
			for (_, b) in &self.balances {
				assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit.");
			}
			for (who, free) in &self.balances {
				frame_system::Pallet::<T>::inc_providers(who);
				assert!(T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).is_ok());
			}
		}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let source = T::Lookup::lookup(source)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let source = ensure_signed(origin)?;
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&source, &dest, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_all())]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let transactor = ensure_signed(origin)?;
			let keep = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let v = <Self as fungible::Inspect<_>>::reducible_balance(&transactor, keep, Fortitude::Polite);
			let dest = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&transactor, &dest, v, keep)?;
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(20_000_000, 3593))]
		pub fn force_unreserve(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let _ = (T::Lookup::lookup(who)?, amount);
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(20_000_000, 3593))]
		pub fn upgrade_accounts(origin: OriginFor<T>, who: Vec<T::AccountId>) -> DispatchResultWithPostInfo {
			ensure_signed(origin)?;
			let _ = who;
			Ok(().into())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::force_set_balance_creating())]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let ed = T::ExistentialDeposit::get();
			let wipeout = new_free < ed;
			let new_free = if wipeout { Zero::zero() } else { new_free };
			let old_free = Self::try_mutate_account_handling_dust(&who, |a, _| -> Result<T::Balance, DispatchError> {
				let old = a.free;
				a.free = new_free;
				Ok(old)
			})?;
			if new_free > old_free {
				drop(PositiveImbalance::<T>::new(new_free - old_free));
			} else if new_free < old_free {
				drop(NegativeImbalance::<T>::new(old_free - new_free));
			}
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
}

pub struct PositiveImbalance<T: Config>(T::Balance);
pub struct NegativeImbalance<T: Config>(T::Balance);
impl<T: Config> PositiveImbalance<T> {
	pub fn new(b: T::Balance) -> Self {
		Self(b)
	}
}
impl<T: Config> NegativeImbalance<T> {
	pub fn new(b: T::Balance) -> Self {
		Self(b)
	}
}
impl<T: Config> Drop for PositiveImbalance<T> {
	fn drop(&mut self) {
		TotalIssuance::<T>::mutate(|v| *v = v.saturating_add(self.0));
	}
}
impl<T: Config> Drop for NegativeImbalance<T> {
	fn drop(&mut self) {
		TotalIssuance::<T>::mutate(|v| *v = v.saturating_sub(self.0));
	}
}
impl<T: Config> Imbalance<T::Balance> for PositiveImbalance<T> {
	fn peek(&self) -> T::Balance {
		self.0
	}
}
impl<T: Config> Imbalance<T::Balance> for NegativeImbalance<T> {
	fn peek(&self) -> T::Balance {
		self.0
	}
}

impl<T: Config> Pallet<T> {
	fn ed() -> T::Balance {
		T::ExistentialDeposit::get()
	}
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> {
		T::AccountStore::get(who)
	}
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).free
	}
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		<Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite)
	}
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance {
		Self::account(who.borrow()).reserved
	}
	fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		type Sys<T> = frame_system::Pallet<T>;
		let result = T::AccountStore::try_mutate_exists(who, |maybe| {
			let is_new = maybe.is_none();
			let mut account = maybe.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed() && (Self::ed() > Zero::zero() || Sys::<T>::providers(who) > 0);
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide {
				Sys::<T>::inc_providers(who);
			}
			if did_consume && !does_consume {
				Sys::<T>::dec_consumers(who);
			}
			if !did_consume && does_consume {
				Sys::<T>::inc_consumers(who)?;
			}
			if did_provide && !does_provide {
				Sys::<T>::dec_providers(who).map_err(|r| {
					if did_consume && !does_consume {
						let _ = Sys::<T>::inc_consumers(who);
					}
					if !did_consume && does_consume {
						let _ = Sys::<T>::dec_consumers(who);
					}
					r
				})?;
			}
			let endowed = if is_new { Some(account.free) } else { None };
			let ed = Self::ed();
			let dust = if account.free < ed && account.reserved.is_zero() {
				if account.free.is_zero() {
					None
				} else {
					Some(account.free)
				}
			} else {
				assert!(account.free.is_zero() || account.free >= ed || !account.reserved.is_zero());
				*maybe = Some(account);
				None
			};
			Ok::<_, E>((endowed, dust, result))
		});
		result.map(|(endowed, dust, result)| {
			if let Some(e) = endowed {
				Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e });
			}
			if let Some(amount) = dust {
				Self::deposit_event(Event::DustLost { account: who.clone(), amount });
			}
			(result, dust)
		})
	}
	fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
		let (r, dust) = Self::try_mutate_account(who, f)?;
		if let Some(d) = dust {
			drop(NegativeImbalance::<T>::new(d));
		}
		Ok(r)
	}
	fn refrozen(who: &T::AccountId, locks: &[BalanceLock<T::Balance>], freezes: &[IdAmount<T::FreezeIdentifier, T::Balance>]) -> DispatchResult {
		let mut prev = Zero::zero();
		let mut after = Zero::zero();
		let (_, _dust) = Self::try_mutate_account(who, |b, _| -> Result<(), DispatchError> {
			prev = b.frozen;
			b.frozen = Zero::zero();
			for l in locks {
				b.frozen = b.frozen.max(l.amount);
			}
			for l in freezes {
				b.frozen = b.frozen.max(l.amount);
			}
			after = b.frozen;
			Ok(())
		})?;
		if prev > after {
			Self::deposit_event(Event::Thawed { who: who.clone(), amount: prev.saturating_sub(after) });
		} else if after > prev {
			Self::deposit_event(Event::Frozen { who: who.clone(), amount: after.saturating_sub(prev) });
		}
		Ok(())
	}
	fn update_locks(who: &T::AccountId, locks: Vec<BalanceLock<T::Balance>>) {
		let _ = Self::refrozen(who, &locks, &Freezes::<T>::get(who));
		let existed = Locks::<T>::contains_key(who);
		if locks.is_empty() {
			Locks::<T>::remove(who);
			if existed {
				frame_system::Pallet::<T>::dec_consumers(who);
			}
		} else {
			Locks::<T>::insert(who, locks);
			if !existed {
				let _ = frame_system::Pallet::<T>::inc_consumers_without_limit(who);
			}
		}
	}
	fn update_freezes(who: &T::AccountId, freezes: frame_support::BoundedVec<IdAmount<T::FreezeIdentifier, T::Balance>, T::MaxFreezes>) -> DispatchResult {
		Self::refrozen(who, &Locks::<T>::get(who), &freezes)?;
		if freezes.is_empty() {
			Freezes::<T>::remove(who);
		} else {
			Freezes::<T>::insert(who, freezes);
		}
		Ok(())
	}
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (_, dust) = Self::try_mutate_account(who, |a, _| -> Result<(), DispatchError> {
			let reduction = a.free.saturating_sub(amount);
			frame_support::ensure!(reduction <= max_reduction, Error::<T>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		Ok(dust)
	}
	fn decrease_balance(who: &T::AccountId, mut amount: T::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<T::Balance, DispatchError> {
		let old = Self::free_balance(who);
		let free = <Self as fungible::Inspect<_>>::reducible_balance(who, preservation, force);
		if precision == Precision::BestEffort {
			amount = amount.min(free);
		}
		let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
		if let Some(d) = Self::write_balance(who, new)? {
			drop(NegativeImbalance::<T>::new(d));
		}
		Ok(old.saturating_sub(new))
	}
	fn increase_balance(who: &T::AccountId, amount: T::Balance, precision: Precision) -> Result<T::Balance, DispatchError> {
		let old = Self::free_balance(who);
		let new = if precision == Precision::BestEffort { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
		if new < Self::ed() {
			return if precision == Precision::BestEffort { Ok(Zero::zero()) } else { Err(TokenError::BelowMinimum.into()) }
		}
		if new == old {
			Ok(Zero::zero())
		} else {
			if let Some(d) = Self::write_balance(who, new)? {
				drop(NegativeImbalance::<T>::new(d));
			}
			Ok(new.saturating_sub(old))
		}
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		Self::ed()
	}
	fn total_balance(who: &T::AccountId) -> T::Balance {
		let a = Self::account(who);
		a.free.saturating_add(a.reserved)
	}
	fn balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn reducible_balance(who: &T::AccountId, p: Preservation, f: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if f == Fortitude::Polite {
			untouchable = a.frozen.saturating_sub(a.reserved);
		}
		if p == Preservation::Preserve ||
			p == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1 ||
			p == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who)
		{
			untouchable = untouchable.max(Self::ed());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		if amount.is_zero() {
			return DepositConsequence::Success
		}
		if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() {
			return DepositConsequence::Overflow
		}
		match Self::account(who).free.checked_add(&amount) {
			None => DepositConsequence::Overflow,
			Some(x) if x < Self::ed() => DepositConsequence::BelowMinimum,
			Some(_) => DepositConsequence::Success,
		}
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() {
			return WithdrawConsequence::Success
		}
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() {
			return WithdrawConsequence::Underflow
		}
		let account = Self::account(who);
		let Some(new_free) = account.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		let liquid = Self::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid {
			return WithdrawConsequence::Frozen
		}
		let ed = Self::ed();
		let success = if new_free < ed {
			if frame_system::Pallet::<T>::can_dec_provider(who) {
				WithdrawConsequence::ReducedToZero(new_free)
			} else {
				return WithdrawConsequence::WouldDie
			}
		} else {
			WithdrawConsequence::Success
		};
		if new_free.saturating_add(account.reserved) < account.frozen {
			return WithdrawConsequence::Frozen
		}
		success
	}
}
fn deposit_result(c: DepositConsequence) -> DispatchResult {
	Err(match c {
		DepositConsequence::Success => return Ok(()),
		DepositConsequence::BelowMinimum => TokenError::BelowMinimum.into(),
		DepositConsequence::CannotCreate => TokenError::CannotCreate.into(),
		DepositConsequence::UnknownAsset => TokenError::UnknownAsset.into(),
		DepositConsequence::Overflow => ArithmeticError::Overflow.into(),
		DepositConsequence::Blocked => TokenError::Blocked.into(),
	})
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(who: &T::AccountId, amount: T::Balance) -> Result<T::Balance, DispatchError> {
		TotalIssuance::<T>::get().checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let actual = Self::increase_balance(who, amount, Precision::Exact)?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_add(actual));
		Self::deposit_event(Event::Minted { who: who.clone(), amount });
		Ok(actual)
	}
	fn burn_from(who: &T::AccountId, amount: T::Balance, precision: Precision, force: Fortitude) -> Result<T::Balance, DispatchError> {
		let actual = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, force).min(amount);
		frame_support::ensure!(actual == amount || precision == Precision::BestEffort, TokenError::FundsUnavailable);
		let actual = Self::decrease_balance(who, actual, Precision::BestEffort, Preservation::Expendable, force)?;
		TotalIssuance::<T>::mutate(|t| *t = t.saturating_sub(actual));
		Self::deposit_event(Event::Burned { who: who.clone(), amount: actual });
		Ok(actual)
	}
	fn set_balance(who: &T::AccountId, amount: T::Balance) -> T::Balance {
		let b = Self::free_balance(who);
		if b > amount {
			Self::burn_from(who, b - amount, Precision::BestEffort, Fortitude::Force).map(|d| b.saturating_sub(d))
		} else {
			Self::mint_into(who, amount - b).map(|d| b.saturating_add(d))
		}
		.unwrap_or(b)
	}
	fn transfer(source: &T::AccountId, dest: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		let _extra = <Self as fungible::Inspect<_>>::can_withdraw(source, amount).into_result(p != Preservation::Expendable)?;
		deposit_result(<Self as fungible::Inspect<_>>::can_deposit(dest, amount, Provenance::Extant))?;
		if source == dest {
			return Ok(amount)
		}
		Self::decrease_balance(source, amount, Precision::BestEffort, p, Fortitude::Polite)?;
		let _ = Self::increase_balance(dest, amount, Precision::BestEffort);
		Self::deposit_event(Event::Transfer { from: source.clone(), to: dest.clone(), amount });
		Ok(amount)
	}
}
impl<T: Config> fungible::InspectFreeze<T::AccountId> for Pallet<T> {
	type Id = T::FreezeIdentifier;
	fn balance_frozen(id: &Self::Id, who: &T::AccountId) -> T::Balance {
		Freezes::<T>::get(who).iter().find(|x| &x.id == id).map_or(Zero::zero(), |x| x.amount)
	}
	fn can_freeze(id: &Self::Id, who: &T::AccountId) -> bool {
		let l = Freezes::<T>::get(who);
		(l.len() as u32) < T::MaxFreezes::get() || l.iter().any(|i| &i.id == id)
	}
}
impl<T: Config> fungible::MutateFreeze<T::AccountId> for Pallet<T> {
	fn set_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Self::thaw(id, who)
		}
		let mut f = Freezes::<T>::get(who);
		if let Some(i) = f.iter_mut().find(|x| &x.id == id) {
			i.amount = amount;
		} else {
			f.try_push(IdAmount { id: *id, amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, f)
	}
	fn extend_freeze(id: &Self::Id, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() {
			return Ok(())
		}
		let mut f = Freezes::<T>::get(who);
		if let Some(i) = f.iter_mut().find(|x| &x.id == id) {
			i.amount = i.amount.max(amount);
		} else {
			f.try_push(IdAmount { id: *id, amount }).map_err(|_| Error::<T>::TooManyFreezes)?;
		}
		Self::update_freezes(who, f)
	}
	fn thaw(id: &Self::Id, who: &T::AccountId) -> DispatchResult {
		let mut f = Freezes::<T>::get(who);
		f.retain(|l| &l.id != id);
		Self::update_freezes(who, f)
	}
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance {
		<Self as fungible::Inspect<_>>::total_balance(who)
	}
	fn total_issuance() -> T::Balance {
		TotalIssuance::<T>::get()
	}
	fn minimum_balance() -> T::Balance {
		Self::ed()
	}
	fn free_balance(who: &T::AccountId) -> T::Balance {
		Self::account(who).free
	}
	fn make_free_balance_be(who: &T::AccountId, b: T::Balance) {
		let _ = <Self as fungible::Mutate<_>>::set_balance(who, b);
	}
	fn deposit_creating(who: &T::AccountId, b: T::Balance) {
		let _ = <Self as fungible::Mutate<_>>::mint_into(who, b);
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		let p = if e == ExistenceRequirement::KeepAlive { Preservation::Preserve } else { Preservation::Expendable };
		<Self as fungible::Mutate<_>>::transfer(s, d, v, p).map(|_| ())
	}
	fn withdraw(who: &T::AccountId, value: T::Balance, _r: WithdrawReasons, e: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(NegativeImbalance::new(Zero::zero()))
		}
		Self::try_mutate_account_handling_dust(who, |a, _| -> Result<Self::NegativeImbalance, DispatchError> {
			let new_free = a.free.checked_sub(&value).ok_or(Error::<T>::InsufficientBalance)?;
			let ed = Self::ed();
			let would_kill = new_free < ed && a.free >= ed;
			frame_support::ensure!(e == ExistenceRequirement::AllowDeath || !would_kill, Error::<T>::Expendability);
			frame_support::ensure!(new_free >= a.frozen, Error::<T>::LiquidityRestrictions);
			a.free = new_free;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: value });
			Ok(NegativeImbalance::new(value))
		})
	}
	fn deposit_into_existing(who: &T::AccountId, value: T::Balance) -> Result<Self::PositiveImbalance, DispatchError> {
		if value.is_zero() {
			return Ok(PositiveImbalance::new(Zero::zero()))
		}
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<Self::PositiveImbalance, DispatchError> {
			frame_support::ensure!(!is_new, Error::<T>::DeadAccount);
			a.free = a.free.checked_add(&value).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: value });
			Ok(PositiveImbalance::new(value))
		})
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = frame_system::pallet_prelude::BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if reasons.bits() == 0 || amount.is_zero() {
			return Self::remove_lock(id, who)
		}
		let mut new = Some(BalanceLock { id, amount, reasons: reasons.into() });
		let mut locks: Vec<_> = Self::locks(who).into_iter().filter_map(|l| if l.id == id { new.take() } else { Some(l) }).collect();
		locks.extend(new);
		Self::update_locks(who, locks);
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if amount.is_zero() || reasons.bits() == 0 {
			return
		}
		let old = Self::locks(who).iter().find(|l| l.id == id).map_or(Zero::zero(), |l| l.amount);
		Self::set_lock(id, who, old.max(amount), reasons)
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let mut locks = Self::locks(who);
		locks.retain(|l| l.id != id);
		Self::update_locks(who, locks);
	}
}
#[allow(unused)]
fn _u<B: Bounded>() -> PhantomData<B> {
	PhantomData
}
