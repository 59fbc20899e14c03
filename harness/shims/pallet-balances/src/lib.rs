//! Stand-in for `pallet-balances` (polkadot-v1.7.2): `Currency` family, `fungible` family, locks, named reserves.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::pallet_prelude::*;
use frame_support::traits::tokens::{fungible, BalanceStatus as Status, DepositConsequence, Fortitude, Precision, Preservation, Provenance, WithdrawConsequence};
use frame_support::traits::{Currency, ExistenceRequirement, ExistenceRequirement::*, Get, Imbalance, LockIdentifier, LockableCurrency, NamedReservableCurrency, OnUnbalanced, ReservableCurrency, SameOrOther, SignedImbalance, StoredMap, TryDrop, WithdrawReasons};
use frame_system::{ensure_root, ensure_signed, pallet_prelude::*};
use sp_runtime::traits::{AtLeast32BitUnsigned, CheckedAdd, CheckedSub, MaybeSerializeDeserialize, Member, Saturating, StaticLookup, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
pub use pallet::*;
pub use imbalances::{NegativeImbalance, PositiveImbalance};
pub mod weights {
	use frame_support::weights::Weight;
	pub trait WeightInfo { fn transfer_allow_death() -> Weight { Weight::zero() } fn transfer_keep_alive() -> Weight { Weight::zero() } }
	impl WeightInfo for () {}
}
pub use weights::WeightInfo;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub enum Reasons { Fee = 0, Misc = 1, All = 2 }
impl From<WithdrawReasons> for Reasons {
	fn from(r: WithdrawReasons) -> Reasons { if r == WithdrawReasons::TRANSACTION_PAYMENT { Reasons::Fee } else if r.contains(WithdrawReasons::TRANSACTION_PAYMENT) { Reasons::All } else { Reasons::Misc } }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct BalanceLock<Balance> { pub id: LockIdentifier, pub amount: Balance, pub reasons: Reasons }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ReserveData<I, Balance> { pub id: I, pub amount: Balance }
#[derive(Encode, Decode, Clone, PartialEq, Eq, Default, Debug, MaxEncodedLen, TypeInfo)]
pub struct AccountData<Balance> { pub free: Balance, pub reserved: Balance, pub frozen: Balance, pub flags: ExtraFlags }
#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, MaxEncodedLen, TypeInfo)]
pub struct ExtraFlags(u128);
impl Default for ExtraFlags { fn default() -> Self { Self(1u128 << 127) } }
impl<B: Saturating + Copy> AccountData<B> { pub fn total(&self) -> B { self.free.saturating_add(self.reserved) } }

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeHoldReason;
		type RuntimeFreezeReason;
		type WeightInfo: WeightInfo;
		type Balance: Parameter + Member + AtLeast32BitUnsigned + codec::Codec + Default + Copy + MaybeSerializeDeserialize + std::fmt::Debug + MaxEncodedLen + TypeInfo;
		type DustRemoval: OnUnbalanced<fungible::Credit<Self::AccountId, Pallet<Self>>>;
		#[pallet::constant]
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore: StoredMap<Self::AccountId, AccountData<Self::Balance>>;
		type ReserveIdentifier: Parameter + Member + MaxEncodedLen + Ord + Copy;
		type FreezeIdentifier;
		#[pallet::constant]
		type MaxLocks: Get<u32>;
		#[pallet::constant]
		type MaxReserves: Get<u32>;
		#[pallet::constant]
		type MaxFreezes: Get<u32>;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		Endowed { account: T::AccountId, free_balance: T::Balance },
		DustLost { account: T::AccountId, amount: T::Balance },
		Transfer { from: T::AccountId, to: T::AccountId, amount: T::Balance },
		BalanceSet { who: T::AccountId, free: T::Balance },
		Reserved { who: T::AccountId, amount: T::Balance },
		Unreserved { who: T::AccountId, amount: T::Balance },
		ReserveRepatriated { from: T::AccountId, to: T::AccountId, amount: T::Balance, destination_status: Status },
		Deposit { who: T::AccountId, amount: T::Balance },
		Withdraw { who: T::AccountId, amount: T::Balance },
		Slashed { who: T::AccountId, amount: T::Balance },
		Minted { who: T::AccountId, amount: T::Balance },
		Burned { who: T::AccountId, amount: T::Balance },
		Suspended { who: T::AccountId, amount: T::Balance },
		Restored { who: T::AccountId, amount: T::Balance },
		Upgraded { who: T::AccountId },
		Issued { amount: T::Balance },
		Rescinded { amount: T::Balance },
		Locked { who: T::AccountId, amount: T::Balance },
		Unlocked { who: T::AccountId, amount: T::Balance },
		Frozen { who: T::AccountId, amount: T::Balance },
		Thawed { who: T::AccountId, amount: T::Balance },
	}
	#[pallet::error]
	pub enum Error<T> { VestingBalance, LiquidityRestrictions, InsufficientBalance, ExistentialDeposit, Expendability, ExistingVestingSchedule, DeadAccount, TooManyReserves, TooManyHolds, TooManyFreezes, IssuanceDeactivated, DeltaZero }
	#[pallet::storage]
	#[pallet::whitelist_storage]
	pub type TotalIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type InactiveIssuance<T: Config> = StorageValue<_, T::Balance, ValueQuery>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountData<T::Balance>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn locks)]
	pub type Locks<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, Vec<BalanceLock<T::Balance>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn reserves)]
	pub type Reserves<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, BoundedVec<ReserveData<T::ReserveIdentifier, T::Balance>, T::MaxReserves>, ValueQuery>;
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config> { pub balances: Vec<(T::AccountId, T::Balance)> }
	impl<T: Config> Default for GenesisConfig<T> { fn default() -> Self { Self { balances: vec![] } } }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let total = self.balances.iter().fold(Zero::zero(), |a: T::Balance, &(_, n)| a + n);
			TotalIssuance::<T>::put(total);
			for (_, b) in &self.balances { assert!(*b >= T::ExistentialDeposit::get(), "the balance of any account should always be at least the existential deposit."); }
			for (who, free) in self.balances.iter() {
				frame_system::Pallet::<T>::inc_providers(who);
				assert!(T::AccountStore::insert(who, AccountData { free: *free, ..Default::default() }).is_ok());
			}
		}
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_allow_death(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn force_transfer(origin: OriginFor<T>, source: <T::Lookup as StaticLookup>::Source, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let s = T::Lookup::lookup(source)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Expendable)?;
			Ok(())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(T::WeightInfo::transfer_keep_alive())]
		pub fn transfer_keep_alive(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, #[pallet::compact] value: T::Balance) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, value, Preservation::Preserve)?;
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn transfer_all(origin: OriginFor<T>, dest: <T::Lookup as StaticLookup>::Source, keep_alive: bool) -> DispatchResult {
			let s = ensure_signed(origin)?;
			let p = if keep_alive { Preservation::Preserve } else { Preservation::Expendable };
			let r = <Self as fungible::Inspect<_>>::reducible_balance(&s, p, Fortitude::Polite);
			let d = T::Lookup::lookup(dest)?;
			<Self as fungible::Mutate<_>>::transfer(&s, &d, r, p)?;
			Ok(())
		}
		#[pallet::call_index(8)]
		#[pallet::weight(T::WeightInfo::transfer_allow_death())]
		pub fn force_set_balance(origin: OriginFor<T>, who: <T::Lookup as StaticLookup>::Source, #[pallet::compact] new_free: T::Balance) -> DispatchResult {
			ensure_root(origin)?;
			let who = T::Lookup::lookup(who)?;
			let ed = T::ExistentialDeposit::get();
			let new_free = if new_free < ed { Zero::zero() } else { new_free };
			let old = Self::mutate_account_handling_dust(&who, |a| { let o = a.free; a.free = new_free; o })?;
			if new_free > old { drop(PositiveImbalance::<T>::new(new_free - old)); } else if new_free < old { drop(NegativeImbalance::<T>::new(old - new_free)); }
			Self::deposit_event(Event::BalanceSet { who, free: new_free });
			Ok(())
		}
	}
}
impl<T: Config> Pallet<T> {
	fn ed() -> T::Balance { T::ExistentialDeposit::get() }
	pub fn free_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).free }
	pub fn usable_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { <Self as fungible::Inspect<_>>::reducible_balance(who.borrow(), Preservation::Expendable, Fortitude::Polite) }
	pub fn reserved_balance(who: impl std::borrow::Borrow<T::AccountId>) -> T::Balance { Self::account(who.borrow()).reserved }
	pub fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	pub fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	pub fn account(who: &T::AccountId) -> AccountData<T::Balance> { T::AccountStore::get(who) }
	pub(crate) fn mutate_account_handling_dust<R>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>) -> R) -> Result<R, DispatchError> { Self::try_mutate_account_handling_dust(who, |a, _| -> Result<R, DispatchError> { Ok(f(a)) }) }
	pub(crate) fn try_mutate_account_handling_dust<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<R, E> {
		let (r, d) = Self::try_mutate_account(who, f)?;
		if let Some(d) = d { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
		Ok(r)
	}
	pub(crate) fn try_mutate_account<R, E: From<DispatchError>>(who: &T::AccountId, f: impl FnOnce(&mut AccountData<T::Balance>, bool) -> Result<R, E>) -> Result<(R, Option<T::Balance>), E> {
		let result = T::AccountStore::try_mutate_exists(who, |maybe_account| {
			let is_new = maybe_account.is_none();
			let mut account = maybe_account.take().unwrap_or_default();
			let did_provide = account.free >= Self::ed() && (!Self::ed().is_zero() || frame_system::Pallet::<T>::providers(who) > 0);
			let did_consume = !is_new && (!account.reserved.is_zero() || !account.frozen.is_zero());
			let result = f(&mut account, is_new)?;
			let does_provide = account.free >= Self::ed();
			let does_consume = !account.reserved.is_zero() || !account.frozen.is_zero();
			if !did_provide && does_provide { frame_system::Pallet::<T>::inc_providers(who); }
			if did_consume && !does_consume { frame_system::Pallet::<T>::dec_consumers(who); }
			if !did_consume && does_consume { frame_system::Pallet::<T>::inc_consumers(who)?; }
			if did_provide && !does_provide {
				frame_system::Pallet::<T>::dec_providers(who).map_err(|r| {
					if did_consume && !does_consume { let _ = frame_system::Pallet::<T>::inc_consumers(who); }
					if !did_consume && does_consume { let _ = frame_system::Pallet::<T>::dec_consumers(who); }
					r
				})?;
			}
			let maybe_endowed = if is_new { Some(account.free) } else { None };
			let ed = Self::ed();
			let maybe_dust = if account.free < ed && account.reserved.is_zero() {
				if account.free.is_zero() { None } else { Some(account.free) }
			} else {
				assert!(account.free.is_zero() || account.free >= ed || !account.reserved.is_zero());
				*maybe_account = Some(account);
				None
			};
			Ok((maybe_endowed, maybe_dust, result))
		});
		result.map(|(endowed, dust, result)| {
			if let Some(e) = endowed { Self::deposit_event(Event::Endowed { account: who.clone(), free_balance: e }); }
			if let Some(amount) = dust { Self::deposit_event(Event::DustLost { account: who.clone(), amount }); }
			(result, dust)
		})
	}
	fn update_locks(who: &T::AccountId, locks: &[BalanceLock<T::Balance>]) {
		let (mut prev, mut after) = (T::Balance::zero(), T::Balance::zero());
		let res = Self::try_mutate_account(who, |a, _| -> Result<(), DispatchError> {
			prev = a.frozen;
			a.frozen = Zero::zero();
			for l in locks.iter() { a.frozen = a.frozen.max(l.amount); }
			after = a.frozen;
			Ok(())
		});
		debug_assert!(res.is_ok());
		if let Ok((_, Some(d))) = res { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
		if locks.is_empty() { Locks::<T>::remove(who); } else { Locks::<T>::insert(who, locks.to_vec()); }
		if prev > after { Self::deposit_event(Event::Unlocked { who: who.clone(), amount: prev - after }); } else if after > prev { Self::deposit_event(Event::Locked { who: who.clone(), amount: after - prev }); }
	}
	fn do_transfer_reserved(slashed: &T::AccountId, beneficiary: &T::AccountId, value: T::Balance, precision: Precision, fortitude: Fortitude, status: Status) -> Result<T::Balance, DispatchError> {
		if value.is_zero() { return Ok(Zero::zero()); }
		let a = Self::account(slashed);
		let max = if fortitude == Fortitude::Force { a.reserved } else { a.reserved.saturating_sub(a.frozen.saturating_sub(a.free)) };
		let actual = match precision { Precision::BestEffort => value.min(max), Precision::Exact => value };
		ensure!(actual <= max, sp_runtime::TokenError::FundsUnavailable);
		if slashed == beneficiary { return match status { Status::Free => Ok(actual.saturating_sub(<Self as ReservableCurrency<_>>::unreserve(slashed, actual))), Status::Reserved => Ok(actual) }; }
		let ((_, d1), d2) = Self::try_mutate_account(beneficiary, |to, is_new| -> Result<((), Option<T::Balance>), DispatchError> {
			ensure!(!is_new, Error::<T>::DeadAccount);
			Self::try_mutate_account(slashed, |from, _| -> DispatchResult {
				match status { Status::Free => to.free = to.free.checked_add(&actual).ok_or(ArithmeticError::Overflow)?, Status::Reserved => to.reserved = to.reserved.checked_add(&actual).ok_or(ArithmeticError::Overflow)? }
				from.reserved = from.reserved.saturating_sub(actual);
				Ok(())
			})
		})?;
		if let Some(d) = d1 { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
		if let Some(d) = d2 { <Self as fungible::Unbalanced<_>>::handle_raw_dust(d); }
		Self::deposit_event(Event::ReserveRepatriated { from: slashed.clone(), to: beneficiary.clone(), amount: actual, destination_status: status });
		Ok(actual)
	}
}
mod imbalances {
	use super::*;
	macro_rules! imb { ($n:ident, $o:ident, $f:ident) => {
		#[must_use]
		pub struct $n<T: Config>(T::Balance);
		impl<T: Config> $n<T> { pub fn new(a: T::Balance) -> Self { Self(a) } }
		impl<T: Config> std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}({:?})", stringify!($n), self.0) } }
		impl<T: Config> PartialEq for $n<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
		impl<T: Config> Eq for $n<T> {}
		impl<T: Config> TryDrop for $n<T> { fn try_drop(self) -> Result<(), Self> { self.drop_zero() } }
		impl<T: Config> Default for $n<T> { fn default() -> Self { Self::zero() } }
		impl<T: Config> Imbalance<T::Balance> for $n<T> {
			type Opposite = $o<T>;
			fn zero() -> Self { Self(Zero::zero()) }
			fn drop_zero(self) -> Result<(), Self> { if self.0.is_zero() { std::mem::forget(self); Ok(()) } else { Err(self) } }
			fn split(self, amount: T::Balance) -> (Self, Self) { let first = self.0.min(amount); let second = self.0 - first; std::mem::forget(self); (Self(first), Self(second)) }
			fn extract(&mut self, amount: T::Balance) -> Self { let n = self.0.min(amount); self.0 = self.0 - n; Self(n) }
			fn merge(mut self, o: Self) -> Self { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); self }
			fn subsume(&mut self, o: Self) { self.0 = self.0.saturating_add(o.0); std::mem::forget(o); }
			fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite> {
				let (a, b) = (self.0, o.0);
				std::mem::forget((self, o));
				if a > b { SameOrOther::Same(Self(a - b)) } else if b > a { SameOrOther::Other($o::new(b - a)) } else { SameOrOther::None }
			}
			fn peek(&self) -> T::Balance { self.0 }
		}
		impl<T: Config> Drop for $n<T> { fn drop(&mut self) { if !self.0.is_zero() { TotalIssuance::<T>::mutate(|v| *v = v.$f(self.0)); } } }
	} }
	imb!(PositiveImbalance, NegativeImbalance, saturating_add);
	imb!(NegativeImbalance, PositiveImbalance, saturating_sub);
}
impl<T: Config> Currency<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	type PositiveImbalance = PositiveImbalance<T>;
	type NegativeImbalance = NegativeImbalance<T>;
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn can_slash(who: &T::AccountId, v: T::Balance) -> bool { v.is_zero() || Self::free_balance(who) >= v }
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn minimum_balance() -> T::Balance { Self::ed() }
	fn burn(mut a: T::Balance) -> PositiveImbalance<T> {
		if a.is_zero() { return PositiveImbalance::zero(); }
		TotalIssuance::<T>::mutate(|i| { *i = i.checked_sub(&a).unwrap_or_else(|| { a = *i; Zero::zero() }); });
		Pallet::<T>::deposit_event(Event::Rescinded { amount: a });
		PositiveImbalance::new(a)
	}
	fn issue(mut a: T::Balance) -> NegativeImbalance<T> {
		if a.is_zero() { return NegativeImbalance::zero(); }
		TotalIssuance::<T>::mutate(|i| { *i = i.checked_add(&a).unwrap_or_else(|| { a = <T::Balance as sp_runtime::traits::Bounded>::max_value() - *i; <T::Balance as sp_runtime::traits::Bounded>::max_value() }); });
		Pallet::<T>::deposit_event(Event::Issued { amount: a });
		NegativeImbalance::new(a)
	}
	fn free_balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn ensure_can_withdraw(who: &T::AccountId, a: T::Balance, _r: WithdrawReasons, new: T::Balance) -> DispatchResult {
		if a.is_zero() { return Ok(()); }
		ensure!(new >= Self::account(who).frozen, Error::<T>::LiquidityRestrictions);
		Ok(())
	}
	fn transfer(s: &T::AccountId, d: &T::AccountId, v: T::Balance, e: ExistenceRequirement) -> DispatchResult {
		if v.is_zero() || s == d { return Ok(()); }
		let p = match e { KeepAlive => Preservation::Preserve, AllowDeath => Preservation::Expendable };
		<Self as fungible::Mutate<_>>::transfer(s, d, v, p)?;
		Ok(())
	}
	fn slash(who: &T::AccountId, value: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if value.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
		if Self::total_balance(who).is_zero() { return (NegativeImbalance::zero(), value); }
		match Self::try_mutate_account_handling_dust(who, |a, _| -> Result<_, DispatchError> {
			let actual = if frame_system::Pallet::<T>::can_dec_provider(who) { value.min(a.free) } else { value.min(a.free.saturating_sub(Self::ed())) };
			a.free = a.free.saturating_sub(actual);
			Ok((NegativeImbalance::new(actual), value.saturating_sub(actual)))
		}) {
			Ok((i, r)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: value.saturating_sub(r) }); (i, r) },
			Err(_) => (NegativeImbalance::zero(), value),
		}
	}
	fn deposit_into_existing(who: &T::AccountId, v: T::Balance) -> Result<PositiveImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(PositiveImbalance::zero()); }
		Self::try_mutate_account_handling_dust(who, |a, is_new| {
			ensure!(!is_new, Error::<T>::DeadAccount);
			a.free = a.free.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
			Ok(PositiveImbalance::new(v))
		})
	}
	fn deposit_creating(who: &T::AccountId, v: T::Balance) -> PositiveImbalance<T> {
		if v.is_zero() { return PositiveImbalance::zero(); }
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
			ensure!(v >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			a.free = match a.free.checked_add(&v) { Some(x) => x, None => return Ok(PositiveImbalance::zero()) };
			Self::deposit_event(Event::Deposit { who: who.clone(), amount: v });
			Ok(PositiveImbalance::new(v))
		}).unwrap_or_else(|_| PositiveImbalance::zero())
	}
	fn withdraw(who: &T::AccountId, v: T::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<NegativeImbalance<T>, DispatchError> {
		if v.is_zero() { return Ok(NegativeImbalance::zero()); }
		Self::try_mutate_account_handling_dust(who, |a, _| {
			let new = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			let would_kill = new < Self::ed() && a.free >= Self::ed();
			ensure!(l == AllowDeath || !would_kill, Error::<T>::Expendability);
			<Self as Currency<_>>::ensure_can_withdraw(who, v, r, new)?;
			a.free = new;
			Self::deposit_event(Event::Withdraw { who: who.clone(), amount: v });
			Ok(NegativeImbalance::new(v))
		})
	}
	fn make_free_balance_be(who: &T::AccountId, v: T::Balance) -> SignedImbalance<T::Balance, PositiveImbalance<T>> {
		Self::try_mutate_account_handling_dust(who, |a, is_new| -> Result<_, DispatchError> {
			ensure!(v.saturating_add(a.reserved) >= Self::ed() || !is_new, Error::<T>::ExistentialDeposit);
			let i = if a.free <= v { SignedImbalance::Positive(PositiveImbalance::new(v - a.free)) } else { SignedImbalance::Negative(NegativeImbalance::new(a.free - v)) };
			a.free = v;
			Self::deposit_event(Event::BalanceSet { who: who.clone(), free: a.free });
			Ok(i)
		}).unwrap_or_else(|_| SignedImbalance::Positive(PositiveImbalance::zero()))
	}
}
impl<T: Config> ReservableCurrency<T::AccountId> for Pallet<T> {
	fn can_reserve(who: &T::AccountId, v: T::Balance) -> bool {
		if v.is_zero() { return true; }
		Self::account(who).free.checked_sub(&v).map_or(false, |n| n >= Self::ed() && <Self as Currency<_>>::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, n).is_ok())
	}
	fn reserved_balance(who: &T::AccountId) -> T::Balance { Self::account(who).reserved }
	fn reserve(who: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()); }
		Self::try_mutate_account_handling_dust(who, |a, _| -> DispatchResult {
			a.free = a.free.checked_sub(&v).ok_or(Error::<T>::InsufficientBalance)?;
			a.reserved = a.reserved.checked_add(&v).ok_or(ArithmeticError::Overflow)?;
			<Self as Currency<_>>::ensure_can_withdraw(who, v, WithdrawReasons::RESERVE, a.free)
		})?;
		Self::deposit_event(Event::Reserved { who: who.clone(), amount: v });
		Ok(())
	}
	fn unreserve(who: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return Zero::zero(); }
		if <Self as Currency<_>>::total_balance(who).is_zero() { return v; }
		let actual = match Self::mutate_account_handling_dust(who, |a| { let actual = a.reserved.min(v); a.reserved = a.reserved - actual; a.free = a.free.saturating_add(actual); actual }) { Ok(x) => x, Err(_) => return v };
		Self::deposit_event(Event::Unreserved { who: who.clone(), amount: actual });
		v - actual
	}
	fn slash_reserved(who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
		if <Self as Currency<_>>::total_balance(who).is_zero() { return (NegativeImbalance::zero(), v); }
		match Self::mutate_account_handling_dust(who, |a| { let b = a.reserved.min(v); a.reserved = a.reserved.saturating_sub(b); (NegativeImbalance::new(b), v.saturating_sub(b)) }) {
			Ok((i, n)) => { Self::deposit_event(Event::Slashed { who: who.clone(), amount: v.saturating_sub(n) }); (i, n) },
			Err(_) => (NegativeImbalance::zero(), v),
		}
	}
	fn repatriate_reserved(s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: Status) -> Result<T::Balance, DispatchError> {
		let actual = Self::do_transfer_reserved(s, b, v, Precision::BestEffort, Fortitude::Polite, st)?;
		Ok(v.saturating_sub(actual))
	}
}
impl<T: Config> NamedReservableCurrency<T::AccountId> for Pallet<T> {
	type ReserveIdentifier = T::ReserveIdentifier;
	fn reserved_balance_named(id: &T::ReserveIdentifier, who: &T::AccountId) -> T::Balance { let r = Self::reserves(who); r.binary_search_by_key(id, |d| d.id).map(|i| r[i].amount).unwrap_or_default() }
	fn reserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> DispatchResult {
		if v.is_zero() { return Ok(()); }
		Reserves::<T>::try_mutate(who, |r| -> DispatchResult {
			match r.binary_search_by_key(id, |d| d.id) {
				Ok(i) => r[i].amount = r[i].amount.checked_add(&v).ok_or(ArithmeticError::Overflow)?,
				Err(i) => { r.try_insert(i, ReserveData { id: *id, amount: v }).map_err(|_| Error::<T>::TooManyReserves)?; },
			};
			<Self as ReservableCurrency<_>>::reserve(who, v)?;
			Ok(())
		})
	}
	fn unreserve_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> T::Balance {
		if v.is_zero() { return Zero::zero(); }
		Reserves::<T>::mutate_exists(who, |maybe| -> T::Balance {
			if let Some(r) = maybe.as_mut() {
				match r.binary_search_by_key(id, |d| d.id) {
					Ok(i) => {
						let to_change = r[i].amount.min(v);
						let remain = <Self as ReservableCurrency<_>>::unreserve(who, to_change);
						let actual = to_change.saturating_sub(remain);
						r[i].amount -= actual;
						if r[i].amount.is_zero() { if r.len() == 1 { *maybe = None; } else { r.remove(i); } }
						v - actual
					},
					Err(_) => v,
				}
			} else { v }
		})
	}
	fn slash_reserved_named(id: &T::ReserveIdentifier, who: &T::AccountId, v: T::Balance) -> (NegativeImbalance<T>, T::Balance) {
		if v.is_zero() { return (NegativeImbalance::zero(), Zero::zero()); }
		Reserves::<T>::mutate(who, |r| match r.binary_search_by_key(id, |d| d.id) {
			Ok(i) => {
				let to_change = r[i].amount.min(v);
				let (imb, remain) = <Self as ReservableCurrency<_>>::slash_reserved(who, to_change);
				let actual = to_change.saturating_sub(remain);
				r[i].amount -= actual;
				(imb, v - actual)
			},
			Err(_) => (NegativeImbalance::zero(), v),
		})
	}
	fn repatriate_reserved_named(id: &T::ReserveIdentifier, s: &T::AccountId, b: &T::AccountId, v: T::Balance, st: Status) -> Result<T::Balance, DispatchError> {
		if v.is_zero() { return Ok(Zero::zero()); }
		if s == b { return match st { Status::Free => Ok(Self::unreserve_named(id, s, v)), Status::Reserved => Ok(v.saturating_sub(Self::reserved_balance_named(id, s))) }; }
		Reserves::<T>::try_mutate(s, |r| -> Result<T::Balance, DispatchError> {
			match r.binary_search_by_key(id, |d| d.id) {
				Ok(i) => {
					let to_change = r[i].amount.min(v);
					let actual = if st == Status::Reserved {
						Reserves::<T>::try_mutate(b, |br| -> Result<T::Balance, DispatchError> {
							let remain = <Self as ReservableCurrency<_>>::repatriate_reserved(s, b, to_change, st)?;
							let actual = to_change.saturating_sub(remain);
							match br.binary_search_by_key(id, |d| d.id) {
								Ok(j) => br[j].amount = br[j].amount.checked_add(&actual).ok_or(ArithmeticError::Overflow)?,
								Err(j) => { br.try_insert(j, ReserveData { id: *id, amount: actual }).map_err(|_| Error::<T>::TooManyReserves)?; },
							}
							Ok(actual)
						})?
					} else { let remain = <Self as ReservableCurrency<_>>::repatriate_reserved(s, b, to_change, st)?; to_change.saturating_sub(remain) };
					r[i].amount -= actual;
					Ok(v - actual)
				},
				Err(_) => Ok(v),
			}
		})
	}
}
impl<T: Config> LockableCurrency<T::AccountId> for Pallet<T> {
	type Moment = BlockNumberFor<T>;
	type MaxLocks = T::MaxLocks;
	fn set_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if reasons.is_empty() || amount.is_zero() { Self::remove_lock(id, who); return; }
		let mut new = Some(BalanceLock { id, amount, reasons: reasons.into() });
		let mut locks: Vec<_> = Self::locks(who).into_iter().filter_map(|l| if l.id == id { new.take() } else { Some(l) }).collect();
		if let Some(l) = new { locks.push(l) }
		Self::update_locks(who, &locks);
	}
	fn extend_lock(id: LockIdentifier, who: &T::AccountId, amount: T::Balance, reasons: WithdrawReasons) {
		if amount.is_zero() || reasons.is_empty() { return; }
		let mut new = Some(BalanceLock { id, amount, reasons: reasons.into() });
		let mut locks: Vec<_> = Self::locks(who).into_iter().filter_map(|l| if l.id == id { new.take().map(|n| BalanceLock { id, amount: l.amount.max(n.amount), reasons: if l.reasons == n.reasons { l.reasons } else { Reasons::All } }) } else { Some(l) }).collect();
		if let Some(l) = new { locks.push(l) }
		Self::update_locks(who, &locks);
	}
	fn remove_lock(id: LockIdentifier, who: &T::AccountId) {
		let mut locks: Vec<_> = Self::locks(who).into_iter().collect();
		locks.retain(|l| l.id != id);
		Self::update_locks(who, &locks);
	}
}
impl<T: Config> fungible::Inspect<T::AccountId> for Pallet<T> {
	type Balance = T::Balance;
	fn total_issuance() -> T::Balance { TotalIssuance::<T>::get() }
	fn minimum_balance() -> T::Balance { Self::ed() }
	fn total_balance(who: &T::AccountId) -> T::Balance { Self::account(who).total() }
	fn balance(who: &T::AccountId) -> T::Balance { Self::account(who).free }
	fn reducible_balance(who: &T::AccountId, preservation: Preservation, force: Fortitude) -> T::Balance {
		let a = Self::account(who);
		let mut untouchable = Zero::zero();
		if force == Fortitude::Polite { untouchable = a.frozen.saturating_sub(a.reserved); }
		if preservation == Preservation::Preserve || preservation == Preservation::Protect && !a.free.is_zero() && frame_system::Pallet::<T>::providers(who) == 1 || preservation == Preservation::Expendable && !a.free.is_zero() && !frame_system::Pallet::<T>::can_dec_provider(who) {
			untouchable = untouchable.max(Self::ed());
		}
		a.free.saturating_sub(untouchable)
	}
	fn can_deposit(who: &T::AccountId, amount: T::Balance, p: Provenance) -> DepositConsequence {
		if amount.is_zero() { return DepositConsequence::Success; }
		if p == Provenance::Minted && TotalIssuance::<T>::get().checked_add(&amount).is_none() { return DepositConsequence::Overflow; }
		let a = Self::account(who);
		let new_free = match a.free.checked_add(&amount) { None => return DepositConsequence::Overflow, Some(x) if x < Self::ed() => return DepositConsequence::BelowMinimum, Some(x) => x };
		if a.reserved.checked_add(&new_free).is_none() { return DepositConsequence::Overflow; }
		DepositConsequence::Success
	}
	fn can_withdraw(who: &T::AccountId, amount: T::Balance) -> WithdrawConsequence<T::Balance> {
		if amount.is_zero() { return WithdrawConsequence::Success; }
		if TotalIssuance::<T>::get().checked_sub(&amount).is_none() { return WithdrawConsequence::Underflow; }
		let a = Self::account(who);
		let Some(new_free) = a.free.checked_sub(&amount) else { return WithdrawConsequence::BalanceLow };
		let liquid = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Polite);
		if amount > liquid { return WithdrawConsequence::Frozen; }
		let success = if new_free < Self::ed() { if frame_system::Pallet::<T>::can_dec_provider(who) { WithdrawConsequence::ReducedToZero(new_free) } else { return WithdrawConsequence::WouldDie } } else { WithdrawConsequence::Success };
		if new_free.saturating_add(a.reserved) < a.frozen { return WithdrawConsequence::Frozen; }
		success
	}
}
impl<T: Config> fungible::Unbalanced<T::AccountId> for Pallet<T> {
	fn handle_dust(d: fungible::Dust<T::AccountId, Self>) { T::DustRemoval::on_unbalanced(fungible::Credit::<T::AccountId, Self>::of(d.0)) }
	fn write_balance(who: &T::AccountId, amount: T::Balance) -> Result<Option<T::Balance>, DispatchError> {
		let max = <Self as fungible::Inspect<_>>::reducible_balance(who, Preservation::Expendable, Fortitude::Force);
		let (_, dust) = Self::try_mutate_account(who, |a, _| -> DispatchResult {
			ensure!(a.free.saturating_sub(amount) <= max, Error::<T>::InsufficientBalance);
			a.free = amount;
			Ok(())
		})?;
		Ok(dust)
	}
	fn set_total_issuance(a: T::Balance) { TotalIssuance::<T>::put(a) }
	fn deactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_add(a).min(TotalIssuance::<T>::get())) }
	fn reactivate(a: T::Balance) { InactiveIssuance::<T>::mutate(|b| *b = b.saturating_sub(a)) }
}
impl<T: Config> fungible::Mutate<T::AccountId> for Pallet<T> {
	fn done_mint_into(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Minted { who: who.clone(), amount }) }
	fn done_burn_from(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Burned { who: who.clone(), amount }) }
	fn done_transfer(s: &T::AccountId, d: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Transfer { from: s.clone(), to: d.clone(), amount }) }
}
impl<T: Config> fungible::Balanced<T::AccountId> for Pallet<T> {
	type OnDropCredit = fungible::DecreaseIssuance<T::AccountId, Self>;
	type OnDropDebt = fungible::IncreaseIssuance<T::AccountId, Self>;
	fn done_deposit(who: &T::AccountId, amount: T::Balance) { Self::deposit_event(Event::Deposit { who: who.clone(), amount }) }
}
