use crate::arithmetic;
use codec::{Codec, FullCodec, MaxEncodedLen};
use frame_support::traits::{BalanceStatus, Get, LockIdentifier};
use sp_runtime::traits::{AtLeast32BitUnsigned, MaybeSerializeDeserialize};
use sp_runtime::{DispatchError, DispatchResult};
use std::fmt::Debug;

pub trait MultiCurrency<AccountId> {
	type CurrencyId: FullCodec + Eq + PartialEq + Copy + MaybeSerializeDeserialize + Debug + scale_info::TypeInfo + MaxEncodedLen;
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + scale_info::TypeInfo + MaxEncodedLen;
	fn minimum_balance(c: Self::CurrencyId) -> Self::Balance;
	fn total_issuance(c: Self::CurrencyId) -> Self::Balance;
	fn total_balance(c: Self::CurrencyId, who: &AccountId) -> Self::Balance;
	fn free_balance(c: Self::CurrencyId, who: &AccountId) -> Self::Balance;
	fn ensure_can_withdraw(c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn transfer(c: Self::CurrencyId, from: &AccountId, to: &AccountId, a: Self::Balance) -> DispatchResult;
	fn deposit(c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn withdraw(c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn can_slash(c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> bool;
	fn slash(c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> Self::Balance;
}
pub trait MultiCurrencyExtended<AccountId>: MultiCurrency<AccountId> {
	type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + arithmetic::SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + scale_info::TypeInfo + MaxEncodedLen;
	fn update_balance(c: Self::CurrencyId, who: &AccountId, by: Self::Amount) -> DispatchResult;
}
pub trait MultiLockableCurrency<AccountId>: MultiCurrency<AccountId> {
	type Moment;
	fn set_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn extend_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn remove_lock(id: LockIdentifier, c: Self::CurrencyId, who: &AccountId) -> DispatchResult;
}
pub trait MultiReservableCurrency<AccountId>: MultiCurrency<AccountId> {
	fn can_reserve(c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> bool;
	fn slash_reserved(c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn reserved_balance(c: Self::CurrencyId, who: &AccountId) -> Self::Balance;
	fn reserve(c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve(c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(c: Self::CurrencyId, s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedMultiReservableCurrency<AccountId>: MultiReservableCurrency<AccountId> {
	type ReserveIdentifier;
	fn slash_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn reserved_balance_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId) -> Self::Balance;
	fn reserve_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
	fn ensure_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId, v: Self::Balance) -> DispatchResult {
		let current = Self::reserved_balance_named(id, c, who);
		if current > v { Self::unreserve_named(id, c, who, current - v); Ok(()) } else if v > current { Self::reserve_named(id, c, who, v - current) } else { Ok(()) }
	}
	fn unreserve_all_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId) -> Self::Balance { let v = Self::reserved_balance_named(id, c, who); Self::unreserve_named(id, c, who, v); v }
	fn slash_all_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, who: &AccountId) -> Self::Balance { let v = Self::reserved_balance_named(id, c, who); Self::slash_reserved_named(id, c, who, v) }
	fn repatriate_all_reserved_named(id: &Self::ReserveIdentifier, c: Self::CurrencyId, s: &AccountId, b: &AccountId, st: BalanceStatus) -> DispatchResult { let v = Self::reserved_balance_named(id, c, s); Self::repatriate_reserved_named(id, c, s, b, v, st).map(|_| ()) }
}
pub trait BasicCurrency<AccountId> {
	type Balance: AtLeast32BitUnsigned + FullCodec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen;
	fn minimum_balance() -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn ensure_can_withdraw(who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn transfer(from: &AccountId, to: &AccountId, a: Self::Balance) -> DispatchResult;
	fn deposit(who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn withdraw(who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn can_slash(who: &AccountId, v: Self::Balance) -> bool;
	fn slash(who: &AccountId, a: Self::Balance) -> Self::Balance;
}
pub trait BasicCurrencyExtended<AccountId>: BasicCurrency<AccountId> {
	type Amount: arithmetic::Signed + TryInto<Self::Balance> + TryFrom<Self::Balance> + arithmetic::SimpleArithmetic + Codec + Copy + MaybeSerializeDeserialize + Debug + Default + MaxEncodedLen;
	fn update_balance(who: &AccountId, by: Self::Amount) -> DispatchResult;
}
pub trait BasicLockableCurrency<AccountId>: BasicCurrency<AccountId> {
	type Moment;
	fn set_lock(id: LockIdentifier, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn extend_lock(id: LockIdentifier, who: &AccountId, a: Self::Balance) -> DispatchResult;
	fn remove_lock(id: LockIdentifier, who: &AccountId) -> DispatchResult;
}
pub trait BasicReservableCurrency<AccountId>: BasicCurrency<AccountId> {
	fn can_reserve(who: &AccountId, v: Self::Balance) -> bool;
	fn slash_reserved(who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved(s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait NamedBasicReservableCurrency<AccountId, ReserveIdentifier>: BasicReservableCurrency<AccountId> {
	fn slash_reserved_named(id: &ReserveIdentifier, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn reserved_balance_named(id: &ReserveIdentifier, who: &AccountId) -> Self::Balance;
	fn reserve_named(id: &ReserveIdentifier, who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve_named(id: &ReserveIdentifier, who: &AccountId, v: Self::Balance) -> Self::Balance;
	fn repatriate_reserved_named(id: &ReserveIdentifier, s: &AccountId, b: &AccountId, v: Self::Balance, st: BalanceStatus) -> Result<Self::Balance, DispatchError>;
}
pub trait OnDust<AccountId, CurrencyId, Balance> { fn on_dust(who: &AccountId, c: CurrencyId, a: Balance); }
impl<A, C, B> OnDust<A, C, B> for () { fn on_dust(_: &A, _: C, _: B) {} }
pub trait TransferAll<AccountId> { fn transfer_all(s: &AccountId, d: &AccountId) -> DispatchResult; }
#[impl_trait_for_tuples::impl_for_tuples(5)]
impl<AccountId> TransferAll<AccountId> for Tuple { fn transfer_all(s: &AccountId, d: &AccountId) -> DispatchResult { for_tuples!( #( Tuple::transfer_all(s, d)?; )* ); Ok(()) } }
pub trait OnSlash<AccountId, CurrencyId, Balance> { fn on_slash(c: CurrencyId, who: &AccountId, free: Balance, reserved: Balance); }
impl<A, C, B> OnSlash<A, C, B> for () { fn on_slash(_: C, _: &A, _: B, _: B) {} }
pub trait OnDeposit<AccountId, CurrencyId, Balance> { fn on_deposit(c: CurrencyId, who: &AccountId, a: Balance) -> DispatchResult; }
impl<A, C, B> OnDeposit<A, C, B> for () { fn on_deposit(_: C, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait OnTransfer<AccountId, CurrencyId, Balance> { fn on_transfer(c: CurrencyId, from: &AccountId, to: &AccountId, a: Balance) -> DispatchResult; }
impl<A, C, B> OnTransfer<A, C, B> for () { fn on_transfer(_: C, _: &A, _: &A, _: B) -> DispatchResult { Ok(()) } }
pub trait MutationHooks<AccountId, CurrencyId, Balance> {
	type OnDust: OnDust<AccountId, CurrencyId, Balance>;
	type OnSlash: OnSlash<AccountId, CurrencyId, Balance>;
	type PreDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
	type PostDeposit: OnDeposit<AccountId, CurrencyId, Balance>;
	type PreTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
	type PostTransfer: OnTransfer<AccountId, CurrencyId, Balance>;
	type OnNewTokenAccount: crate::Happened<(AccountId, CurrencyId)>;
	type OnKilledTokenAccount: crate::Happened<(AccountId, CurrencyId)>;
}
impl<A, C, B> MutationHooks<A, C, B> for () {
	type OnDust = (); type OnSlash = (); type PreDeposit = (); type PostDeposit = (); type PreTransfer = (); type PostTransfer = (); type OnNewTokenAccount = (); type OnKilledTokenAccount = ();
}
#[allow(unused)] fn _g<T, G: Get<T>>() {}
