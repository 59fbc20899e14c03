//! Stand-in for `orml-tokens` (release polkadot-v1.7.2): same storage, checks, hooks, events and errors.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::pallet_prelude::*;
use frame_support::traits::tokens::{fungibles, DepositConsequence, Fortitude, Preservation, Provenance, WithdrawConsequence};
use frame_support::traits::{BalanceStatus as Status, Contains, ExistenceRequirement, Get, LockIdentifier};
use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
use orml_traits::arithmetic::{self, Signed};
use orml_traits::currency::{MutationHooks, OnDeposit, OnDust, OnSlash, OnTransfer, TransferAll};
use orml_traits::{GetByKey, Happened, MultiCurrency, MultiCurrencyExtended, MultiLockableCurrency, MultiReservableCurrency, NamedMultiReservableCurrency};
use sp_runtime::traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
pub use pallet::*;
pub trait WeightInfo { fn transfer() -> Weight; fn transfer_all() -> Weight; fn transfer_keep_alive() -> Weight; fn force_transfer() -> Weight; fn set_balance() -> Weight; }
impl WeightInfo for () { fn transfer() -> Weight { Weight::zero() } fn transfer_all() -> Weight { Weight::zero() } fn transfer_keep_alive() -> Weight { Weight::zero() } fn force_transfer() -> Weight { Weight::zero() } fn set_balance() -> Weight { Weight::zero() } }
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct BalanceLock<Balance> { pub id: LockIdentifier, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, MaxEncodedLen, Debug, TypeInfo)]
pub struct ReserveData<I, Balance> { pub id: I, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, MaxEncodedLen, Debug, TypeInfo)]
pub struct AccountData<Balance> { pub free: Balance, pub reserved: Balance, pub frozen: Balance }
impl<Balance: Saturating + Copy + Ord> AccountData<Balance> {
	pub fn frozen(&self) -> Balance { self.frozen }
	fn total(&self) -> Balance { self.free.saturating_add(self.reserved) }
}
type Hook<T> = <T as Config>::CurrencyHooks;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type Amount: Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + Parameter + Member + arithmetic::SimpleArithmetic + Default + Copy + MaybeSerializeDeserialize + MaxEncodedLen;
		type CurrencyId: Parameter + Member + Copy + MaybeSerializeDeserialize + Ord + TypeInfo + MaxEncodedLen;
		type WeightInfo: WeightInfo;
		type ExistentialDeposits: GetByKey<Self::CurrencyId, Self::Balance>;
		type CurrencyHooks: MutationHooks<Self::AccountId, Self::CurrencyId, Self::Balance>;
		#[pallet::constant]
		type MaxLocks: Get<u32>;
		#[pallet::constant]
		type MaxReserves: Get<u32>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type DustRemovalWhitelist: Contains<Self::AccountId>;
	}
	#[pallet::error]
	pub enum Error<T> { BalanceTooLow, AmountIntoBalanceFailed, LiquidityRestrictions, MaxLocksExceeded, KeepAlive, ExistentialDeposit, DeadAccount, TooManyReserves }
	#[pallet::event]
	#[pallet::generate_deposit(pub(crate) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		DustLost { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Transfer { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance },
		Reserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Unreserved { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { currency_id: T::CurrencyId, from: T::AccountId, to: T::AccountId, amount: T::Balance, status: Status },
		BalanceSet { currency_id: T::CurrencyId, who: T::AccountId, free: T::Balance, reserved: T::Balance },
		TotalIssuanceSet { currency_id: T::CurrencyId, amount: T::Balance },
		Withdrawn { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Slashed { currency_id: T::CurrencyId, who: T::AccountId, free_amount: T::Balance, reserved_amount: T::Balance },
		Deposited { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		LockSet { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		LockRemoved { lock_id: LockIdentifier, currency_id: T::CurrencyId, who: T::AccountId },
		Locked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Unlocked { currency_id: T::CurrencyId, who: T::AccountId, amount: T::Balance },
		Issued { currency_id: T::CurrencyId, amount: T::Balance },
		Rescinded { currency_id: T::CurrencyId, amount: T::Balance },
	}
	#[pallet::storage]
	#[pallet::getter(fn total_issuance)]
	pub type TotalIssuance<T: Config> = StorageMap<_, Twox64Concat, T::CurrencyId, T::Balance, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<BalanceLock<T::Balance>, T::MaxLocks>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn accounts)]
	pub type Accounts<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn reserves)]
	pub type Reserves<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Twox64Concat, T::CurrencyId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::CurrencyId, T::Balance)> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { balances: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let mut seen: Vec<(T::AccountId, T::CurrencyId)> = self.balances.iter().map(|(a, c, _)| (a.clone(), *c)).collect();
			seen.sort(); seen.dedup();
			assert!(seen.len() == self.balances.len(), "duplicate endowed accounts in genesis.");
			self.balances.iter().for_each(|(account_id, currency_id, initial_balance)| {
				assert!(*initial_balance >= T::ExistentialDeposits::get(currency_id), "the balance of any account should always be more than existential deposit.");
				Pallet::<T>::mutate_account(account_id, *currency_id, |a, _| a.free = *initial_balance);
				TotalIssuance::<T>::mutate(*currency_id, |t| *t = t.checked_add(initial_balance).expect("total issuance cannot overflow when building genesis"));
			});
		}
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn transfer(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			let from = ensure_signed(origin)?;
			let to = T::Lookup::lookup(dest)?;
			Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
		}
		#[pallet::call_index(1)]
		#[pallet::weight(T::WeightInfo::transfer_all())]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, keep_alive: bool) -> DispatchResult {
			let from = ensure_signed(origin)?;
			let to = T::Lookup::lookup(dest)?;
			let preservation = if keep_alive { Preservation::Protect } else { Preservation::Expendable };
			let reducible = <Self as fungibles::Inspect<T::AccountId>>::reducible_balance(currency_id, &from, preservation, Fortitude::Polite);
			Self::do_transfer(currency_id, &from, &to, reducible, if keep_alive { ExistenceRequirement::KeepAlive } else { ExistenceRequirement::AllowDeath })
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResultWithPostInfo {
			let from = ensure_signed(origin)?;
			let to = T::Lookup::lookup(dest)?;
			Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::KeepAlive)?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::force_transfer())]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] amount: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let from = T::Lookup::lookup(source)?;
			let to = T::Lookup::lookup(dest)?;
			Self::do_transfer(currency_id, &from, &to, amount, ExistenceRequirement::AllowDeath)
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::set_balance())]
		pub fn set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, currency_id: T::CurrencyId, #[pallet::compact] new_free: T::Balance, #[pallet::compact] new_reserved: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			Self::try_mutate_account(&who, currency_id, |account, _| -> DispatchResult {
				let mut new_total = new_free.checked_add(&new_reserved).ok_or(ArithmeticError::Overflow)?;
				let (new_free, new_reserved) = if new_total < T::ExistentialDeposits::get(&currency_id) { new_total = Zero::zero(); (Zero::zero(), Zero::zero()) } else { (new_free, new_reserved) };
				let old_total = account.total();
				account.free = new_free;
				account.reserved = new_reserved;
				if new_total > old_total {
					TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_add(&(new_total - old_total)).ok_or(ArithmeticError::Overflow)?; Ok(()) })?;
				} else if new_total < old_total {
					TotalIssuance::<T>::try_mutate(currency_id, |t| -> DispatchResult { *t = t.checked_sub(&(old_total - new_total)).ok_or(ArithmeticError::Underflow)?; Ok(()) })?;
				}
				Self::deposit_event(Event::BalanceSet { currency_id, who: who.clone(), free: new_free, reserved: new_reserved });
				Ok(())
			})?;
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn deposit_consequence(_who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance, account: &AccountData<T::Balance>) -> DepositConsequence {
		if amount.is_zero() { return DepositConsequence::Success; }
		if TotalIssuance::<T>::get(currency_id).checked_add(&amount).is_none() { return DepositConsequence::Overflow; }
		let Some(new_total) = account.total().checked_add(&amount) else { return DepositConsequence::Overflow };
		if new_total < T::ExistentialDeposits::get(&currency_id) { return DepositConsequence::BelowMinimum; }
		DepositConsequence::Success
	}
	pub fn withdraw_consequence(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance, account: &AccountData<T::Balance>) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() { return WithdrawConsequence::Success; }
		if TotalIssuance::<T>::get(currency_id).checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow; }
		let Some(new_total) = account.total().checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		let ed = T::ExistentialDeposits::get(&currency_id);
		let success = if new_total < ed { if frame_system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(new_total) } else { return WithdrawConsequence::WouldDie } } else { WithdrawConsequence::Success };
		let Some(new_free) = account.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		if new_free < account.frozen { return WithdrawConsequence::Frozen; }
		success
	}
	pub fn ensure_can_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() { return Ok(()); }
		let a = Self::accounts(who, currency_id);
		let new = a.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
		ensure!(new >= a.frozen(), Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	pub(crate) fn try_mutate_account<R, E>(who: &T::AccountId, currency_id: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		Accounts::<T>::try_mutate_exists(who, currency_id, |maybe_account| {
			let existed = maybe_account.is_some();
			let mut account = maybe_account.take().unwrap_or_default();
			f(&mut account, existed).map(|result| {
				let maybe_endowed = if !existed { Some(account.free) } else { None };
				let mut maybe_dust: Option<T::Balance> = None;
				let total = account.total();
				*maybe_account = if total < T::ExistentialDeposits::get(&currency_id) {
					if total.is_zero() { None } else {
						if !T::DustRemovalWhitelist::contains(who) { maybe_dust = Some(total); }
						Some(account)
					}
				} else { Some(account) };
				(maybe_endowed, existed, maybe_account.is_some(), maybe_dust, result)
			})
		})
		.map(|(maybe_endowed, existed, exists, maybe_dust, result)| {
			if existed && !exists {
				let _ = frame_system::Pallet::<T>::dec_providers(who);
				<Hook<T> as MutationHooks<_, _, _>>::OnKilledTokenAccount::happened(&(who.clone(), currency_id));
			} else if !existed && exists {
				frame_system::Pallet::<T>::inc_providers(who);
				<Hook<T> as MutationHooks<_, _, _>>::OnNewTokenAccount::happened(&(who.clone(), currency_id));
			}
			if let Some(amount) = maybe_endowed { Self::deposit_event(Event::Endowed { currency_id, who: who.clone(), amount }); }
			if let Some(amount) = maybe_dust {
				<Hook<T> as MutationHooks<_, _, _>>::OnDust::on_dust(who, currency_id, amount);
				Self::deposit_event(Event::DustLost { currency_id, who: who.clone(), amount });
			}
			(result, maybe_dust)
		})
	}
	pub(crate) fn mutate_account<R>(who: &T::AccountId, currency_id: T::CurrencyId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> R) -> (R, Option<T::Balance>) {
		Self::try_mutate_account(who, currency_id, |a, e| -> Result<R, std::convert::Infallible> { Ok(f(a, e)) }).expect("infallible")
	}
	pub(crate) fn update_locks(currency_id: T::CurrencyId, who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) -> DispatchResult {
		let mut total_frozen_prev = Zero::zero();
		let mut total_frozen_after = Zero::zero();
		Self::mutate_account(who, currency_id, |account, _| {
			total_frozen_prev = account.frozen;
			account.frozen = Zero::zero();
			for l in locks.iter() { account.frozen = account.frozen.max(l.amount); }
			total_frozen_after = account.frozen;
		});
		let existed = Locks::<T>::contains_key(who, currency_id);
		if locks.is_empty() {
			Locks::<T>::remove(who, currency_id);
			if existed { frame_system::Pallet::<T>::dec_consumers(who); }
		} else {
			let b: BoundedVec<BalanceLock<T::Balance>, T::MaxLocks> = locks.to_vec().try_into().map_err(|_| Error::<T>::MaxLocksExceeded)?;
			Locks::<T>::insert(who, currency_id, b);
			if !existed { let _ = frame_system::Pallet::<T>::inc_consumers(who); }
		}
		if total_frozen_prev < total_frozen_after { Self::deposit_event(Event::Locked { currency_id, who: who.clone(), amount: total_frozen_after.saturating_sub(total_frozen_prev) }); }
		else if total_frozen_prev > total_frozen_after { Self::deposit_event(Event::Unlocked { currency_id, who: who.clone(), amount: total_frozen_prev.saturating_sub(total_frozen_after) }); }
		Ok(())
	}
	pub(crate) fn do_transfer(currency_id: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, existence_requirement: ExistenceRequirement) -> DispatchResult {
		if amount.is_zero() || from == to { return Ok(()); }
		<Hook<T> as MutationHooks<_, _, _>>::PreTransfer::on_transfer(currency_id, from, to, amount)?;
		Self::try_mutate_account(to, currency_id, |to_account, _| -> DispatchResult {
			Self::try_mutate_account(from, currency_id, |from_account, _| -> DispatchResult {
				from_account.free = from_account.free.checked_sub(&amount).ok_or(Error::<T>::BalanceTooLow)?;
				to_account.free = to_account.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
				let ed = T::ExistentialDeposits::get(&currency_id);
				ensure!(to_account.total() >= ed || T::DustRemovalWhitelist::contains(to), Error::<T>::ExistentialDeposit);
				Self::ensure_can_withdraw(currency_id, from, amount)?;
				ensure!(Self::death_ok(from, from_account, ed, existence_requirement), Error::<T>::KeepAlive);
				Ok(())
			})?;
			Ok(())
		})?;
		<Hook<T> as MutationHooks<_, _, _>>::PostTransfer::on_transfer(currency_id, from, to, amount)?;
		Self::deposit_event(Event::Transfer { currency_id, from: from.clone(), to: to.clone(), amount });
		Ok(())
	}
	fn death_ok(who: &T::AccountId, a: &AccountData<T::Balance>, ed: T::Balance, e: ExistenceRequirement) -> bool {
		let allow_death = e == ExistenceRequirement::AllowDeath && frame_system::Pallet::<T>::can_dec_provider(who);
		let would_be_dead = a.total() < ed && (a.total().is_zero() || !T::DustRemovalWhitelist::contains(who));
		allow_death || !would_be_dead
	}
	pub(crate) fn do_withdraw(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, e: ExistenceRequirement, change_total_issuance: bool) -> DispatchResult {
		if amount.is_zero() { return Ok(()); }
		Self::ensure_can_withdraw(currency_id, who, amount)?;
		Self::try_mutate_account(who, currency_id, |account, _| -> DispatchResult {
			account.free = account.free.saturating_sub(amount);
			ensure!(Self::death_ok(who, account, T::ExistentialDeposits::get(&currency_id), e), Error::<T>::KeepAlive);
			if change_total_issuance { TotalIssuance::<T>::mutate(currency_id, |v| *v = v.saturating_sub(amount)); }
			Self::deposit_event(Event::Withdrawn { currency_id, who: who.clone(), amount });
			Ok(())
		})?;
		Ok(())
	}
	pub(crate) fn do_deposit(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance, require_existed: bool, change_total_issuance: bool) -> Result<T::Balance, DispatchError> {
		if amount.is_zero() { return Ok(amount); }
		<Hook<T> as MutationHooks<_, _, _>>::PreDeposit::on_deposit(currency_id, who, amount)?;
		Self::try_mutate_account(who, currency_id, |account, existed| -> DispatchResult {
			if require_existed { ensure!(existed, Error::<T>::DeadAccount); } else {
				ensure!(amount >= T::ExistentialDeposits::get(&currency_id) || existed || T::DustRemovalWhitelist::contains(who), Error::<T>::ExistentialDeposit);
			}
			let new_total_issuance = Self::total_issuance(currency_id).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
			if change_total_issuance { TotalIssuance::<T>::insert(currency_id, new_total_issuance); }
			account.free = account.free.saturating_add(amount);
			Ok(())
		})?;
		<Hook<T> as MutationHooks<_, _, _>>::PostDeposit::on_deposit(currency_id, who, amount)?;
		Self::deposit_event(Event::Deposited { currency_id, who: who.clone(), amount });
		Ok(amount)
	}
}
impl<T: Config> MultiCurrency<T::AccountId> for Pallet<T> {
	type CurrencyId = T::CurrencyId;
	type Balance = T::Balance;
	fn minimum_balance(c: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&c) }
	fn total_issuance(c: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(c) }
	fn total_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).total() }
	fn free_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).free }
	fn ensure_can_withdraw(c: T::CurrencyId, who: &T::AccountId, a: T::Balance) -> DispatchResult { Self::ensure_can_withdraw(c, who, a) }
	fn transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_transfer(c, from, to, a, ExistenceRequirement::AllowDeath) }
	fn deposit(c: T::CurrencyId, who: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_deposit(c, who, a, false, true)?; Ok(()) }
	fn withdraw(c: T::CurrencyId, who: &T::AccountId, a: T::Balance) -> DispatchResult { Self::do_withdraw(c, who, a, ExistenceRequirement::AllowDeath, true) }
	fn can_slash(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(c, who) >= v }
	fn slash(currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> T::Balance {
		if amount.is_zero() { return amount; }
		let account = Self::accounts(who, currency_id);
		let free_slashed = account.free.min(amount);
		let mut remaining = amount.saturating_sub(free_slashed);
		<Hook<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(currency_id, who, free_slashed, Zero::zero());
		if !free_slashed.is_zero() { Self::mutate_account(who, currency_id, |a, _| a.free = a.free.saturating_sub(free_slashed)); }
		let reserved_slashed = account.reserved.min(remaining);
		if !reserved_slashed.is_zero() { remaining = remaining.saturating_sub(reserved_slashed); Self::mutate_account(who, currency_id, |a, _| a.reserved = a.reserved.saturating_sub(reserved_slashed)); }
		TotalIssuance::<T>::mutate(currency_id, |v| *v = v.saturating_sub(amount - remaining));
		Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: free_slashed, reserved_amount: reserved_slashed });
		remaining
	}
}
impl<T: Config> MultiCurrencyExtended<T::AccountId> for Pallet<T> {
	type Amount = T::Amount;
	fn update_balance(c: T::CurrencyId, who: &T::AccountId, by: T::Amount) -> DispatchResult {
		if by.is_zero() { return Ok(()); }
		let abs = by.abs();
		ensure!(!Signed::is_negative(&abs), Error::<T>::AmountIntoBalanceFailed);
		let v: T::Balance = TryInto::<T::Balance>::try_into(abs).map_err(|_| Error::<T>::AmountIntoBalanceFailed)?;
		if Signed::is_positive(&by) { <Self as MultiCurrency<_>>::deposit(c, who, v) } else { <Self as MultiCurrency<_>>::withdraw(c, who, v).map(|_| ()) }
	}
}
impl<T: Config> MultiLockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	fn set_lock(lock_id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() { return Self::remove_lock(lock_id, currency_id, who); }
		let mut new = Some(BalanceLock { id: lock_id, amount });
		let mut locks: Vec<_> = Self::locks(who, currency_id).into_iter().filter_map(|l| if l.id == lock_id { new.take() } else { Some(l) }).collect();
		if let Some(l) = new { locks.push(l) }
		Self::update_locks(currency_id, who, &locks)?;
		Self::deposit_event(Event::LockSet { lock_id, currency_id, who: who.clone(), amount });
		Ok(())
	}
	fn extend_lock(lock_id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> DispatchResult {
		if amount.is_zero() { return Ok(()); }
		let mut new = Some(BalanceLock { id: lock_id, amount });
		let mut locks: Vec<_> = Self::locks(who, currency_id).into_iter().filter_map(|l| if l.id == lock_id { new.take().map(|n| BalanceLock { id: lock_id, amount: n.amount.max(l.amount) }) } else { Some(l) }).collect();
		if let Some(l) = new { locks.push(l) }
		Self::update_locks(currency_id, who, &locks)
	}
	fn remove_lock(lock_id: LockIdentifier, currency_id: T::CurrencyId, who: &T::AccountId) -> DispatchResult {
		let mut locks: Vec<_> = Self::locks(who, currency_id).into_iter().collect();
		locks.retain(|l| l.id != lock_id);
		Self::update_locks(currency_id, who, &locks)?;
		Self::deposit_event(Event::LockRemoved { lock_id, currency_id, who: who.clone() });
		Ok(())
	}
}
impl<T: Config> MultiReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(c: T::CurrencyId, who: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::ensure_can_withdraw(c, who, v).is_ok() }
	fn slash_reserved(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() { return value; }
		let reserved = Self::reserved_balance(currency_id, who);
		let actual = reserved.min(value);
		<Hook<T> as MutationHooks<_, _, _>>::OnSlash::on_slash(currency_id, who, Zero::zero(), actual);
		Self::mutate_account(who, currency_id, |a, _| a.reserved = reserved.saturating_sub(actual));
		TotalIssuance::<T>::mutate(currency_id, |v| *v = v.saturating_sub(actual));
		Self::deposit_event(Event::Slashed { currency_id, who: who.clone(), free_amount: Zero::zero(), reserved_amount: actual });
		value.saturating_sub(actual)
	}
	fn reserved_balance(c: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, c).reserved }
	fn reserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
		if value.is_zero() { return Ok(()); }
		Self::ensure_can_withdraw(currency_id, who, value)?;
		Self::mutate_account(who, currency_id, |a, _| { a.free = a.free.saturating_sub(value); a.reserved = a.reserved.saturating_add(value); });
		Self::deposit_event(Event::Reserved { currency_id, who: who.clone(), amount: value });
		Ok(())
	}
	fn unreserve(currency_id: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() { return value; }
		let (remaining, _) = Self::mutate_account(who, currency_id, |a, _| {
			let actual = a.reserved.min(value);
			a.reserved = a.reserved.saturating_sub(actual);
			a.free = a.free.saturating_add(actual);
			value.saturating_sub(actual)
		});
		Self::deposit_event(Event::Unreserved { currency_id, who: who.clone(), amount: value.saturating_sub(remaining) });
		remaining
	}
	fn repatriate_reserved(currency_id: T::CurrencyId, s: &T::AccountId, b: &T::AccountId, value: T::Balance, status: Status) -> Result<T::Balance, DispatchError> {
		if value.is_zero() { return Ok(value); }
		if s == b { return match status { Status::Free => Ok(Self::unreserve(currency_id, s, value)), Status::Reserved => Ok(value.saturating_sub(Self::reserved_balance(currency_id, s))) }; }
		let from = Self::accounts(s, currency_id);
		let to = Self::accounts(b, currency_id);
		let actual = from.reserved.min(value);
		match status {
			Status::Free => { Self::mutate_account(b, currency_id, |a, _| a.free = to.free.saturating_add(actual)); },
			Status::Reserved => { Self::mutate_account(b, currency_id, |a, _| a.reserved = to.reserved.saturating_add(actual)); },
		}
		Self::mutate_account(s, currency_id, |a, _| a.reserved = from.reserved.saturating_sub(actual));
		Self::deposit_event(Event::ReserveRepatriated { currency_id, from: s.clone(), to: b.clone(), amount: actual, status });
		Ok(value.saturating_sub(actual))
	}
}
impl<T: Config> NamedMultiReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
	fn reserved_balance_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId) -> T::Balance {
		let r = Self::reserves(who, c);
		r.binary_search_by_key(id, |d| d.id).map(|i| r[i].amount).unwrap_or_default()
	}
	fn reserve_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> DispatchResult {
		if value.is_zero() { return Ok(()); }
		Reserves::<T>::try_mutate(who, c, |r| -> DispatchResult {
			match r.binary_search_by_key(id, |d| d.id) {
				Ok(i) => r[i].amount = r[i].amount.saturating_add(value),
				Err(i) => { r.try_insert(i, ReserveData { id: *id, amount: value }).map_err(|_| Error::<T>::TooManyReserves)?; },
			};
			<Self as MultiReservableCurrency<_>>::reserve(c, who, value)
		})
	}
	fn unreserve_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() { return Zero::zero(); }
		Reserves::<T>::mutate_exists(who, c, |maybe| {
			if let Some(r) = maybe.as_mut() {
				match r.binary_search_by_key(id, |d| d.id) {
					Ok(i) => {
						let to_change = r[i].amount.min(value);
						let remain = <Self as MultiReservableCurrency<_>>::unreserve(c, who, to_change);
						let actual = to_change.saturating_sub(remain);
						r[i].amount = r[i].amount.saturating_sub(actual);
						if r[i].amount.is_zero() { if r.len() == 1 { *maybe = None; } else { r.remove(i); } }
						value.saturating_sub(actual)
					},
					Err(_) => value,
				}
			} else { value }
		})
	}
	fn slash_reserved_named(id: &T::ReserveIdentifier, c: T::CurrencyId, who: &T::AccountId, value: T::Balance) -> T::Balance {
		if value.is_zero() { return Zero::zero(); }
		Reserves::<T>::mutate(who, c, |r| match r.binary_search_by_key(id, |d| d.id) {
			Ok(i) => {
				let to_change = r[i].amount.min(value);
				let remain = <Self as MultiReservableCurrency<_>>::slash_reserved(c, who, to_change);
				let actual = to_change.saturating_sub(remain);
				r[i].amount = r[i].amount.saturating_sub(actual);
				value.saturating_sub(actual)
			},
			Err(_) => value,
		})
	}
	fn repatriate_reserved_named(id: &T::ReserveIdentifier, c: T::CurrencyId, s: &T::AccountId, b: &T::AccountId, value: T::Balance, status: Status) -> Result<T::Balance, DispatchError> {
		if value.is_zero() { return Ok(Zero::zero()); }
		if s == b { return match status { Status::Free => Ok(Self::unreserve_named(id, c, s, value)), Status::Reserved => Ok(value.saturating_sub(Self::reserved_balance_named(id, c, s))) }; }
		Reserves::<T>::try_mutate(s, c, |r| -> Result<T::Balance, DispatchError> {
			match r.binary_search_by_key(id, |d| d.id) {
				Ok(i) => {
					let to_change = r[i].amount.min(value);
					let actual = if status == Status::Reserved {
						Reserves::<T>::try_mutate(b, c, |br| -> Result<T::Balance, DispatchError> {
							match br.binary_search_by_key(id, |d| d.id) {
								Ok(j) => { let remain = <Self as MultiReservableCurrency<_>>::repatriate_reserved(c, s, b, to_change, status)?; let actual = to_change.saturating_sub(remain); br[j].amount = br[j].amount.saturating_add(actual); Ok(actual) },
								Err(j) => { let remain = <Self as MultiReservableCurrency<_>>::repatriate_reserved(c, s, b, to_change, status)?; let actual = to_change.saturating_sub(remain); br.try_insert(j, ReserveData { id: *id, amount: actual }).map_err(|_| Error::<T>::TooManyReserves)?; Ok(actual) },
							}
						})?
					} else {
						let remain = <Self as MultiReservableCurrency<_>>::repatriate_reserved(c, s, b, to_change, status)?;
						to_change.saturating_sub(remain)
					};
					r[i].amount = r[i].amount.saturating_sub(actual);
					Ok(value.saturating_sub(actual))
				},
				Err(_) => Ok(value),
			}
		})
	}
}
impl<T: Config> fungibles::Inspect<T::AccountId> for Pallet<T> {
	type AssetId = T::CurrencyId;
	type Balance = T::Balance;
	fn total_issuance(a: T::CurrencyId) -> T::Balance { TotalIssuance::<T>::get(a) }
	fn minimum_balance(a: T::CurrencyId) -> T::Balance { T::ExistentialDeposits::get(&a) }
	fn balance(a: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, a).free }
	fn total_balance(a: T::CurrencyId, who: &T::AccountId) -> T::Balance { Self::accounts(who, a).total() }
	fn reducible_balance(c: T::CurrencyId, who: &T::AccountId, preservation: Preservation, _f: Fortitude) -> T::Balance {
		let a = Self::accounts(who, c);
		let liquid = a.free.saturating_sub(a.frozen);
		if frame_system::Pallet::<T>::can_dec_provider(who) && !matches!(preservation, Preservation::Protect) { liquid } else {
			let must_remain = T::ExistentialDeposits::get(&c).saturating_sub(a.total() - liquid);
			liquid.saturating_sub(must_remain)
		}
	}
	fn can_deposit(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance, _: Provenance) -> DepositConsequence { Self::deposit_consequence(who, c, amount, &Self::accounts(who, c)) }
	fn can_withdraw(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> { Self::withdraw_consequence(who, c, amount, &Self::accounts(who, c)) }
	fn asset_exists(c: T::CurrencyId) -> bool { TotalIssuance::<T>::contains_key(c) }
}
impl<T: Config> fungibles::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(_: fungibles::Dust<T::AccountId, Self>) {}
	fn write_balance(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max_reduction = <Self as fungibles::Inspect<_>>::reducible_balance(c, who, Preservation::Expendable, Fortitude::Force);
		let (_, dust) = Self::try_mutate_account(who, c, |a, _| -> DispatchResult {
			ensure!(a.free.saturating_sub(amount) <= max_reduction, Error::<T>::BalanceTooLow);
			a.free = amount;
			Self::deposit_event(Event::BalanceSet { currency_id: c, who: who.clone(), free: a.free, reserved: a.reserved });
			Ok(())
		})?;
		Ok(dust)
	}
	fn set_total_issuance(c: T::CurrencyId, amount: T::Balance) { TotalIssuance::<T>::insert(c, amount); Self::deposit_event(Event::TotalIssuanceSet { currency_id: c, amount }); }
}
impl<T: Config> fungibles::Mutate<T::AccountId> for Pallet<T> {
	fn transfer(c: T::CurrencyId, from: &T::AccountId, to: &T::AccountId, amount: T::Balance, p: Preservation) -> Result<T::Balance, DispatchError> {
		let e = match p { Preservation::Expendable => ExistenceRequirement::AllowDeath, Preservation::Protect | Preservation::Preserve => ExistenceRequirement::KeepAlive };
		Self::do_transfer(c, from, to, amount, e).map(|_| amount)
	}
	fn done_mint_into(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Deposited { currency_id: c, who: who.clone(), amount }) }
	fn done_burn_from(c: T::CurrencyId, who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Withdrawn { currency_id: c, who: who.clone(), amount }) }
	fn done_transfer(c: T::CurrencyId, s: &T::AccountId, d: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Transfer { currency_id: c, from: s.clone(), to: d.clone(), amount }) }
}
impl<T: Config> TransferAll<T::AccountId> for Pallet<T> {
	fn transfer_all(source: &T::AccountId, dest: &T::AccountId) -> DispatchResult {
		frame_support::storage::with_storage_layer(|| {
			for (currency_id, account) in Accounts::<T>::iter_prefix(source).collect::<Vec<_>>() {
				if !frame_system::Pallet::<T>::can_dec_provider(source) { return Err(DispatchError::Other("cannot reap")); }
				<Self as MultiCurrency<_>>::transfer(currency_id, source, dest, account.free)?;
			}
			Ok(())
		})
	}
}
/// Moves dust to `GetAccountId`.
pub struct TransferDust<T, G>(std::marker::PhantomData<(T, G)>);
impl<T: Config, G: Get<T::AccountId>> OnDust<T::AccountId, T::CurrencyId, T::Balance> for TransferDust<T, G> {
	fn on_dust(who: &T::AccountId, c: T::CurrencyId, amount: T::Balance) { let _ = <Pallet<T> as MultiCurrency<_>>::transfer(c, who, &G::get(), amount); }
}
pub struct BurnDust<T>(std::marker::PhantomData<T>);
impl<T: Config> OnDust<T::AccountId, T::CurrencyId, T::Balance> for BurnDust<T> {
	fn on_dust(who: &T::AccountId, c: T::CurrencyId, amount: T::Balance) { let _ = Pallet::<T>::do_withdraw(c, who, amount, ExistenceRequirement::AllowDeath, true); }
}
