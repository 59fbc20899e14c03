//! Stand-in for `orml-xcm-support`: the interfaces of unknown assets and failed deposits, and the currency-id matcher.
use frame_support::dispatch::DispatchResult;
use sp_runtime::{DispatchError, traits::{Convert, SaturatedConversion}};
use staging_xcm::v4::prelude::*;
pub trait UnknownAsset { fn deposit(asset: &Asset, to: &Location) -> DispatchResult; fn withdraw(asset: &Asset, from: &Location) -> DispatchResult; }
const NO_UNKNOWN_ASSET_IMPL: &str = "NoUnknownAssetImpl";
impl UnknownAsset for () {
	fn deposit(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other(NO_UNKNOWN_ASSET_IMPL)) }
	fn withdraw(_: &Asset, _: &Location) -> DispatchResult { Err(DispatchError::Other(NO_UNKNOWN_ASSET_IMPL)) }
}
pub trait OnDepositFail<CurrencyId, AccountId, Balance> {
	fn on_deposit_unknown_asset_fail(err: DispatchError, _asset: &Asset, _location: &Location) -> XcmResult { Err(XcmError::FailedToTransactAsset(err.into())) }
	fn on_deposit_currency_fail(err: DispatchError, _currency_id: CurrencyId, _who: &AccountId, _amount: Balance) -> XcmResult { Err(XcmError::FailedToTransactAsset(err.into())) }
}
impl<CurrencyId, AccountId, Balance> OnDepositFail<CurrencyId, AccountId, Balance> for () {}
pub struct IsNativeConcrete<CurrencyId, CurrencyIdConvert>(std::marker::PhantomData<(CurrencyId, CurrencyIdConvert)>);
impl<CurrencyId, C: Convert<Location, Option<CurrencyId>>> IsNativeConcrete<CurrencyId, C> { pub fn matches<B: TryFrom<u128> + sp_runtime::traits::UniqueSaturatedFrom<u128> + sp_runtime::traits::Bounded>(a: &Asset) -> Option<B> { if let Asset { fun: Fungible(amount), id: AssetId(l) } = a { C::convert(l.clone()).map(|_| (*amount).saturated_into()) } else { None } } }
