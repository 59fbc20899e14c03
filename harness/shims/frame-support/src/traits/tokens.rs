use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize, Member, Zero, Bounded, CheckedAdd, CheckedSub, Saturating};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};
use std::fmt::Debug;
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Preservation { Expendable, Protect, Preserve }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Fortitude { Polite, Force }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Precision { Exact, BestEffort }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Provenance { Minted, Extant }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)] pub enum PaymentStatus { InProgress, Unknown, Success, Failure }
pub trait Pay {
	type Balance: Balance;
	type Beneficiary;
	type AssetKind;
	type Id: FullCodec + MaxEncodedLen + TypeInfo + Clone + Eq + PartialEq + Debug + Copy;
	type Error: Debug;
	fn pay(who: &Self::Beneficiary, asset_kind: Self::AssetKind, amount: Self::Balance) -> Result<Self::Id, Self::Error>;
	fn check_payment(id: Self::Id) -> PaymentStatus;
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum Restriction { Free, OnHold }
#[derive(Copy, Clone, Debug, Eq, PartialEq)] pub enum ExistenceRequirement { KeepAlive, AllowDeath }
#[derive(Copy, Clone, Debug, Eq, PartialEq, Encode, Decode, TypeInfo, MaxEncodedLen)] pub enum BalanceStatus { Free, Reserved }
bitflags::bitflags! {
	#[derive(Encode, Decode, MaxEncodedLen)]
	pub struct WithdrawReasons: u8 { const TRANSACTION_PAYMENT = 1; const TRANSFER = 2; const RESERVE = 4; const FEE = 8; const TIP = 16; }
}
impl TypeInfo for WithdrawReasons { type Identity = u8; fn type_info() -> scale_info::Type { <u8 as TypeInfo>::type_info() } }
impl WithdrawReasons { pub fn except(o: WithdrawReasons) -> WithdrawReasons { let mut f = Self::all(); f.toggle(o); f } }
pub trait AssetId: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen {}
impl<T: FullCodec + Clone + Eq + PartialEq + Debug + TypeInfo + MaxEncodedLen> AssetId for T {}
pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + MaybeSerializeDeserialize {}
impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + Debug + TypeInfo + MaxEncodedLen + MaybeSerializeDeserialize> Balance for T {}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum WithdrawConsequence<B> { BalanceLow, WouldDie, UnknownAsset, Underflow, Overflow, Frozen, ReducedToZero(B), Success }
impl<B: Zero> WithdrawConsequence<B> {
	pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
		use WithdrawConsequence::*;
		match self {
			BalanceLow => Err(TokenError::FundsUnavailable.into()),
			WouldDie => Err(TokenError::OnlyProvider.into()),
			UnknownAsset => Err(TokenError::UnknownAsset.into()),
			Underflow => Err(ArithmeticError::Underflow.into()),
			Overflow => Err(ArithmeticError::Overflow.into()),
			Frozen => Err(TokenError::Frozen.into()),
			ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
			ReducedToZero(r) => Ok(r),
			Success => Ok(Zero::zero()),
		}
	}
}
#[derive(Copy, Clone, Debug, Eq, PartialEq)]
pub enum DepositConsequence { BelowMinimum, CannotCreate, UnknownAsset, Overflow, Success, Blocked }
impl DepositConsequence {
	pub fn into_result(self) -> DispatchResult {
		use DepositConsequence::*;
		Err(match self {
			BelowMinimum => TokenError::BelowMinimum.into(),
			CannotCreate => TokenError::CannotCreate.into(),
			UnknownAsset => TokenError::UnknownAsset.into(),
			Overflow => ArithmeticError::Overflow.into(),
			Blocked => TokenError::Blocked.into(),
			Success => return Ok(()),
		})
	}
}
pub trait Locker<C, I> { fn is_locked(c: C, i: I) -> bool; }
impl<C, I> Locker<C, I> for () { fn is_locked(_: C, _: I) -> bool { false } }
pub trait GetSalary {}
pub use currency as _c;
pub mod imbalance {
	use super::*;
	use crate::traits::{SameOrOther, TryDrop};
	pub trait Imbalance<Balance>: Sized + TryDrop + Default {
		type Opposite: Imbalance<Balance>;
		fn zero() -> Self;
		fn drop_zero(self) -> Result<(), Self>;
		fn split(self, amount: Balance) -> (Self, Self);
		fn merge(self, o: Self) -> Self;
		fn subsume(&mut self, o: Self);
		fn offset(self, o: Self::Opposite) -> SameOrOther<Self, Self::Opposite>;
		fn peek(&self) -> Balance;
		fn extract(&mut self, a: Balance) -> Self;
		fn ration(self, first: u32, second: u32) -> (Self, Self) where Balance: From<u32> + Saturating + std::ops::Div<Output = Balance> + Copy {
			let total: u32 = first.saturating_add(second);
			if total == 0 { return (Self::zero(), Self::zero()); }
			let amount1 = self.peek().saturating_mul(Balance::from(first)) / Balance::from(total);
			self.split(amount1)
		}
		fn maybe_merge(self, o: Option<Self>) -> Self { match o { Some(o) => self.merge(o), None => self } }
	}
	pub enum SignedImbalance<B, P: Imbalance<B>> { Positive(P), Negative(P::Opposite) }
	impl<B, P: Imbalance<B, Opposite = N>, N: Imbalance<B, Opposite = P>> SignedImbalance<B, P> { pub fn zero() -> Self { Self::Positive(P::zero()) } pub fn merge(self, o: Self) -> Self { match (self, o) { (Self::Positive(a), Self::Positive(b)) => Self::Positive(a.merge(b)), (Self::Negative(a), Self::Negative(b)) => Self::Negative(a.merge(b)), (Self::Positive(a), Self::Negative(b)) => match a.offset(b) { SameOrOther::Same(p) => Self::Positive(p), SameOrOther::Other(n) => Self::Negative(n), SameOrOther::None => Self::Positive(P::zero()) }, (a, b) => b.merge(a) } } }
	#[allow(unused)] fn _d(_: DispatchError) {}
}
pub mod currency {
	use super::*;
	use super::imbalance::Imbalance;
	pub use super::imbalance::SignedImbalance;
	pub type LockIdentifier = [u8; 8];
	pub trait Currency<AccountId> {
		type Balance: Balance;
		type PositiveImbalance: Imbalance<Self::Balance, Opposite = Self::NegativeImbalance>;
		type NegativeImbalance: Imbalance<Self::Balance, Opposite = Self::PositiveImbalance>;
		fn total_balance(who: &AccountId) -> Self::Balance;
		fn can_slash(who: &AccountId, v: Self::Balance) -> bool;
		fn total_issuance() -> Self::Balance;
		fn active_issuance() -> Self::Balance { Self::total_issuance() }
		fn deactivate(_: Self::Balance) {}
		fn reactivate(_: Self::Balance) {}
		fn minimum_balance() -> Self::Balance;
		fn burn(a: Self::Balance) -> Self::PositiveImbalance;
		fn issue(a: Self::Balance) -> Self::NegativeImbalance;
		fn pair(a: Self::Balance) -> (Self::PositiveImbalance, Self::NegativeImbalance) { (Self::burn(a), Self::issue(a)) }
		fn free_balance(who: &AccountId) -> Self::Balance;
		fn ensure_can_withdraw(who: &AccountId, a: Self::Balance, r: WithdrawReasons, new: Self::Balance) -> DispatchResult;
		fn transfer(s: &AccountId, d: &AccountId, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
		fn slash(who: &AccountId, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn deposit_into_existing(who: &AccountId, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
		fn resolve_into_existing(who: &AccountId, v: Self::NegativeImbalance) -> Result<(), Self::NegativeImbalance> { let x = v.peek(); match Self::deposit_into_existing(who, x) { Ok(o) => Ok(drop(v.offset(o))), _ => Err(v) } }
		fn deposit_creating(who: &AccountId, v: Self::Balance) -> Self::PositiveImbalance;
		fn resolve_creating(who: &AccountId, v: Self::NegativeImbalance) { let x = v.peek(); drop(v.offset(Self::deposit_creating(who, x))) }
		fn withdraw(who: &AccountId, v: Self::Balance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
		fn settle(who: &AccountId, v: Self::PositiveImbalance, r: WithdrawReasons, l: ExistenceRequirement) -> Result<(), Self::PositiveImbalance> { let x = v.peek(); match Self::withdraw(who, x, r, l) { Ok(o) => Ok(drop(v.offset(o))), _ => Err(v) } }
		fn make_free_balance_be(who: &AccountId, b: Self::Balance) -> SignedImbalance<Self::Balance, Self::PositiveImbalance>;
	}
	pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
		fn can_reserve(who: &AccountId, v: Self::Balance) -> bool;
		fn slash_reserved(who: &AccountId, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn reserved_balance(who: &AccountId) -> Self::Balance;
		fn reserve(who: &AccountId, v: Self::Balance) -> DispatchResult;
		fn unreserve(who: &AccountId, v: Self::Balance) -> Self::Balance;
		fn repatriate_reserved(s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	}
	pub trait NamedReservableCurrency<AccountId>: ReservableCurrency<AccountId> {
		type ReserveIdentifier: codec::Codec + MaxEncodedLen + Copy + Eq + Debug;
		fn slash_reserved_named(id: &Self::ReserveIdentifier, who: &AccountId, v: Self::Balance) -> (Self::NegativeImbalance, Self::Balance);
		fn reserved_balance_named(id: &Self::ReserveIdentifier, who: &AccountId) -> Self::Balance;
		fn reserve_named(id: &Self::ReserveIdentifier, who: &AccountId, v: Self::Balance) -> DispatchResult;
		fn unreserve_named(id: &Self::ReserveIdentifier, who: &AccountId, v: Self::Balance) -> Self::Balance;
		fn repatriate_reserved_named(id: &Self::ReserveIdentifier, s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	}
	pub trait LockableCurrency<AccountId>: Currency<AccountId> {
		type Moment;
		type MaxLocks: crate::traits::Get<u32>;
		fn set_lock(id: LockIdentifier, who: &AccountId, a: Self::Balance, r: WithdrawReasons);
		fn extend_lock(id: LockIdentifier, who: &AccountId, a: Self::Balance, r: WithdrawReasons);
		fn remove_lock(id: LockIdentifier, who: &AccountId);
	}
}
/// The single-asset and multi-asset variants have the same shape; `$a` is the asset argument of the latter.
macro_rules! fungible_traits { ($m:ident, [$($asset:ident: $AT:ty)?], [$($pass:ident)?], {$($assoc:tt)*}, {$($dust:tt)*}, $mkdust:expr) => {
	pub mod $m {
		use super::*;
		pub use super::{BalanceStatus as _Bs};
		pub trait Inspect<AccountId>: Sized {
			$($assoc)*
			type Balance: Balance;
			fn total_issuance($($asset: $AT)?) -> Self::Balance;
			fn active_issuance($($asset: $AT)?) -> Self::Balance { Self::total_issuance($($pass)?) }
			fn minimum_balance($($asset: $AT)?) -> Self::Balance;
			fn total_balance($($asset: $AT,)? who: &AccountId) -> Self::Balance;
			fn balance($($asset: $AT,)? who: &AccountId) -> Self::Balance;
			fn reducible_balance($($asset: $AT,)? who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
			fn can_deposit($($asset: $AT,)? who: &AccountId, a: Self::Balance, p: Provenance) -> DepositConsequence;
			fn can_withdraw($($asset: $AT,)? who: &AccountId, a: Self::Balance) -> WithdrawConsequence<Self::Balance>;
			$( #[doc = stringify!($asset)] fn asset_exists($asset: $AT) -> bool; )?
		}
		$($dust)*
		pub trait Unbalanced<AccountId>: Inspect<AccountId> {
			fn handle_dust(d: Dust<AccountId, Self>);
			fn write_balance($($asset: $AT,)? who: &AccountId, a: Self::Balance) -> Result<Option<Self::Balance>, DispatchError>;
			fn set_total_issuance($($asset: $AT,)? a: Self::Balance);
			fn handle_raw_dust($($asset: $AT,)? a: Self::Balance) { Self::handle_dust($mkdust($($pass,)? a)) }
			fn decrease_balance($($asset: $AT,)? who: &AccountId, mut amount: Self::Balance, precision: Precision, preservation: Preservation, force: Fortitude) -> Result<Self::Balance, DispatchError> {
				let old = Self::balance($($pass.clone(),)? who);
				let free = Self::reducible_balance($($pass.clone(),)? who, preservation, force);
				if let Precision::BestEffort = precision { amount = amount.min(free); } else if free < amount { return Err(TokenError::FundsUnavailable.into()); }
				let new = old.checked_sub(&amount).ok_or(TokenError::FundsUnavailable)?;
				if let Some(d) = Self::write_balance($($pass.clone(),)? who, new)? { Self::handle_dust($mkdust($($pass,)? d)); }
				Ok(old.saturating_sub(new))
			}
			fn increase_balance($($asset: $AT,)? who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
				let old = Self::balance($($pass.clone(),)? who);
				let new = if let Precision::BestEffort = precision { old.saturating_add(amount) } else { old.checked_add(&amount).ok_or(ArithmeticError::Overflow)? };
				if new < Self::minimum_balance($($pass.clone())?) {
					return if let Precision::BestEffort = precision { Ok(Self::Balance::default()) } else { Err(TokenError::BelowMinimum.into()) };
				}
				if new == old { Ok(Self::Balance::default()) } else {
					if let Some(d) = Self::write_balance($($pass.clone(),)? who, new)? { Self::handle_dust($mkdust($($pass,)? d)); }
					Ok(new.saturating_sub(old))
				}
			}
			fn deactivate($($asset: $AT,)? _a: Self::Balance) { $( let _ = $pass; )? }
			fn reactivate($($asset: $AT,)? _a: Self::Balance) { $( let _ = $pass; )? }
		}
		pub trait Mutate<AccountId: Eq>: Inspect<AccountId> + Unbalanced<AccountId> {
			fn mint_into($($asset: $AT,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
				Self::total_issuance($($pass.clone())?).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
				let actual = Self::increase_balance($($pass.clone(),)? who, amount, Precision::Exact)?;
				Self::set_total_issuance($($pass.clone(),)? Self::total_issuance($($pass.clone())?).saturating_add(actual));
				Self::done_mint_into($($pass,)? who, amount);
				Ok(actual)
			}
			fn burn_from($($asset: $AT,)? who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError> {
				let actual = Self::reducible_balance($($pass.clone(),)? who, Preservation::Expendable, force).min(amount);
				if actual != amount && precision != Precision::BestEffort { return Err(TokenError::FundsUnavailable.into()); }
				Self::total_issuance($($pass.clone())?).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
				let actual = Self::decrease_balance($($pass.clone(),)? who, actual, Precision::BestEffort, Preservation::Expendable, force)?;
				Self::set_total_issuance($($pass.clone(),)? Self::total_issuance($($pass.clone())?).saturating_sub(actual));
				Self::done_burn_from($($pass,)? who, actual);
				Ok(actual)
			}
			fn transfer($($asset: $AT,)? source: &AccountId, dest: &AccountId, amount: Self::Balance, preservation: Preservation) -> Result<Self::Balance, DispatchError> {
				let _extra = Self::can_withdraw($($pass.clone(),)? source, amount).into_result(preservation != Preservation::Expendable)?;
				Self::can_deposit($($pass.clone(),)? dest, amount, Provenance::Extant).into_result()?;
				if source == dest { return Ok(amount); }
				Self::decrease_balance($($pass.clone(),)? source, amount, Precision::BestEffort, preservation, Fortitude::Polite)?;
				let _ = Self::increase_balance($($pass.clone(),)? dest, amount, Precision::BestEffort);
				Self::done_transfer($($pass,)? source, dest, amount);
				Ok(amount)
			}
			fn shelve($($asset: $AT,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
				let actual = Self::reducible_balance($($pass.clone(),)? who, Preservation::Expendable, Fortitude::Polite).min(amount);
				if actual != amount { return Err(TokenError::FundsUnavailable.into()); }
				Self::total_issuance($($pass.clone())?).checked_sub(&actual).ok_or(ArithmeticError::Overflow)?;
				let actual = Self::decrease_balance($($pass.clone(),)? who, actual, Precision::BestEffort, Preservation::Expendable, Fortitude::Polite)?;
				Self::set_total_issuance($($pass.clone(),)? Self::total_issuance($($pass.clone())?).saturating_sub(actual));
				Self::done_shelve($($pass,)? who, actual);
				Ok(actual)
			}
			fn restore($($asset: $AT,)? who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError> {
				Self::total_issuance($($pass.clone())?).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
				let actual = Self::increase_balance($($pass.clone(),)? who, amount, Precision::Exact)?;
				Self::set_total_issuance($($pass.clone(),)? Self::total_issuance($($pass.clone())?).saturating_add(actual));
				Self::done_restore($($pass,)? who, amount);
				Ok(actual)
			}
			fn set_balance($($asset: $AT,)? who: &AccountId, amount: Self::Balance) -> Self::Balance {
				let b = Self::balance($($pass.clone(),)? who);
				let a = if b > amount { Self::burn_from($($pass,)? who, b - amount, Precision::BestEffort, Fortitude::Force).map(|d| b.saturating_sub(d)) } else { Self::mint_into($($pass,)? who, amount - b).map(|d| b.saturating_add(d)) };
				a.unwrap_or(b)
			}
			fn done_mint_into($($asset: $AT,)? _who: &AccountId, _a: Self::Balance) { $( let _ = $pass; )? }
			fn done_shelve($($asset: $AT,)? _who: &AccountId, _a: Self::Balance) { $( let _ = $pass; )? }
			fn done_restore($($asset: $AT,)? _who: &AccountId, _a: Self::Balance) { $( let _ = $pass; )? }
			fn done_burn_from($($asset: $AT,)? _who: &AccountId, _a: Self::Balance) { $( let _ = $pass; )? }
			fn done_transfer($($asset: $AT,)? _s: &AccountId, _d: &AccountId, _a: Self::Balance) { $( let _ = $pass; )? }
		}
	}
} }
fungible_traits!(fungible, [], [], {}, { #[derive(Clone)] pub struct Dust<A, T: Inspect<A>>(pub T::Balance); pub use super::credit::*; }, Dust);
fungible_traits!(fungibles, [asset: Self::AssetId], [asset], { type AssetId: super::AssetId; }, { #[derive(Clone)] pub struct Dust<A, T: Inspect<A>>(pub T::AssetId, pub T::Balance);
	pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
		/// The returned debt is settled at once (issuance grows), as dropping it would do.
		fn deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError> {
			let actual = Self::increase_balance(asset.clone(), who, amount, precision)?;
			Self::set_total_issuance(asset.clone(), Self::total_issuance(asset).saturating_add(actual));
			Ok(actual)
		}
	}
	impl<A, T: Inspect<A> + Unbalanced<A>> Balanced<A> for T {}
}, Dust);
pub mod nonfungible {}
pub mod nonfungibles_v2 {}
pub mod nonfungibles {
	use super::*;
	pub trait Inspect<AccountId> {
		type ItemId;
		type CollectionId;
		fn owner(c: &Self::CollectionId, i: &Self::ItemId) -> Option<AccountId>;
		fn collection_owner(_c: &Self::CollectionId) -> Option<AccountId> { None }
		fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8]) -> Option<Vec<u8>> { None }
		fn collection_attribute(_c: &Self::CollectionId, _k: &[u8]) -> Option<Vec<u8>> { None }
		fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool { true }
	}
	pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {
		type CollectionsIterator: Iterator<Item = Self::CollectionId>;
		type ItemsIterator: Iterator<Item = Self::ItemId>;
		type OwnedIterator: Iterator<Item = (Self::CollectionId, Self::ItemId)>;
		type OwnedInCollectionIterator: Iterator<Item = Self::ItemId>;
		fn collections() -> Self::CollectionsIterator;
		fn items(c: &Self::CollectionId) -> Self::ItemsIterator;
		fn owned(who: &AccountId) -> Self::OwnedIterator;
		fn owned_in_collection(c: &Self::CollectionId, who: &AccountId) -> Self::OwnedInCollectionIterator;
	}
	pub trait Create<AccountId>: Inspect<AccountId> { fn create_collection(c: &Self::CollectionId, who: &AccountId, admin: &AccountId) -> DispatchResult; }
	pub trait Destroy<AccountId>: Inspect<AccountId> { type DestroyWitness; fn get_destroy_witness(c: &Self::CollectionId) -> Option<Self::DestroyWitness>; fn destroy(c: Self::CollectionId, w: Self::DestroyWitness, check: Option<AccountId>) -> Result<Self::DestroyWitness, DispatchError>; }
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn mint_into(_c: &Self::CollectionId, _i: &Self::ItemId, _who: &AccountId) -> DispatchResult { Err(TokenError::Unsupported.into()) }
		fn burn(_c: &Self::CollectionId, _i: &Self::ItemId, _check: Option<&AccountId>) -> DispatchResult { Err(TokenError::Unsupported.into()) }
		fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _k: &[u8], _v: &[u8]) -> DispatchResult { Err(TokenError::Unsupported.into()) }
		fn set_collection_attribute(_c: &Self::CollectionId, _k: &[u8], _v: &[u8]) -> DispatchResult { Err(TokenError::Unsupported.into()) }
	}
	pub trait Transfer<AccountId>: Inspect<AccountId> { fn transfer(c: &Self::CollectionId, i: &Self::ItemId, d: &AccountId) -> DispatchResult; }
}
#[allow(unused)] fn _b<T: Bounded + CheckedAdd + CheckedSub>(_: T) {}

/// What `fungible` calls a credit: an amount taken out of an account and not yet put anywhere; dropping it burns it.
pub mod credit {
	use super::*;
	use super::fungible::{Inspect, Unbalanced};
	use std::marker::PhantomData;
	pub trait HandleImbalanceDrop<B> { fn handle(amount: B); }
	pub struct Imbalance<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> { amount: B, _p: PhantomData<(D, O)> }
	impl<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> Imbalance<B, D, O> {
		/// (crate-private upstream: made by the currency only)
		pub fn of(amount: B) -> Self { Self { amount, _p: PhantomData } }
		pub fn zero() -> Self { Self::of(B::zero()) }
		pub fn peek(&self) -> B { self.amount }
	}
	impl<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> Drop for Imbalance<B, D, O> { fn drop(&mut self) { if !self.amount.is_zero() { D::handle(self.amount) } } }
	impl<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> Default for Imbalance<B, D, O> { fn default() -> Self { Self::zero() } }
	impl<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> crate::traits::TryDrop for Imbalance<B, D, O> { fn try_drop(self) -> Result<(), Self> { if self.amount.is_zero() { Ok(()) } else { Err(self) } } }
	impl<B: Balance, D: HandleImbalanceDrop<B>, O: HandleImbalanceDrop<B>> super::imbalance::Imbalance<B> for Imbalance<B, D, O> {
		type Opposite = Imbalance<B, O, D>;
		fn zero() -> Self { Self::of(B::zero()) }
		fn drop_zero(self) -> Result<(), Self> { if self.amount.is_zero() { Ok(()) } else { Err(self) } }
		fn split(self, a: B) -> (Self, Self) { let x = self.amount.min(a); let y = self.amount - x; std::mem::forget(self); (Self::of(x), Self::of(y)) }
		fn merge(mut self, o: Self) -> Self { self.amount = self.amount.saturating_add(o.amount); std::mem::forget(o); self }
		fn subsume(&mut self, o: Self) { self.amount = self.amount.saturating_add(o.amount); std::mem::forget(o) }
		fn offset(self, o: Self::Opposite) -> crate::traits::SameOrOther<Self, Self::Opposite> {
			use crate::traits::SameOrOther as S;
			let (a, b) = (self.amount, o.amount);
			std::mem::forget((self, o));
			if a > b { S::Same(Self::of(a - b)) } else if b > a { S::Other(Imbalance::of(b - a)) } else { S::None }
		}
		fn peek(&self) -> B { self.amount }
		fn extract(&mut self, a: B) -> Self { let n = self.amount.min(a); self.amount = self.amount - n; Self::of(n) }
	}
	pub struct DecreaseIssuance<A, U>(PhantomData<(A, U)>);
	impl<A, U: Unbalanced<A>> HandleImbalanceDrop<U::Balance> for DecreaseIssuance<A, U> { fn handle(a: U::Balance) { U::set_total_issuance(U::total_issuance().saturating_sub(a)) } }
	pub struct IncreaseIssuance<A, U>(PhantomData<(A, U)>);
	impl<A, U: Unbalanced<A>> HandleImbalanceDrop<U::Balance> for IncreaseIssuance<A, U> { fn handle(a: U::Balance) { U::set_total_issuance(U::total_issuance().saturating_add(a)) } }
	pub type Credit<A, T> = Imbalance<<T as Inspect<A>>::Balance, <T as Balanced<A>>::OnDropCredit, <T as Balanced<A>>::OnDropDebt>;
	pub type Debt<A, T> = Imbalance<<T as Inspect<A>>::Balance, <T as Balanced<A>>::OnDropDebt, <T as Balanced<A>>::OnDropCredit>;
	pub trait Balanced<A>: Inspect<A> + Unbalanced<A> {
		type OnDropDebt: HandleImbalanceDrop<Self::Balance>;
		type OnDropCredit: HandleImbalanceDrop<Self::Balance>;
		fn done_deposit(_who: &A, _amount: Self::Balance) {}
		fn deposit(who: &A, v: Self::Balance, p: Precision) -> Result<Debt<A, Self>, DispatchError> { let n = Self::increase_balance(who, v, p)?; Self::done_deposit(who, n); Ok(Imbalance::of(n)) }
		fn resolve(who: &A, credit: Credit<A, Self>) -> Result<(), Credit<A, Self>> {
			let v = credit.peek();
			match Self::deposit(who, v, Precision::Exact) { Err(_) => Err(credit), Ok(d) => { std::mem::forget((d, credit)); Ok(()) } }
		}
	}
}
