//! The runtime's own glue: the parts of `runtime/hydradx/src/{assets,governance,system,xcm,lib}.rs` that carry logic, taken
//! out of these files at build time and compiled into a runtime of the real pallets they work with.
#![allow(clippy::all)]
use codec::{Decode, Encode};
use frame_support::traits::{Contains, Currency, Get, Imbalance, OnUnbalanced};
use frame_support::weights::IdentityFee;
use frame_support::PalletId;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::router::{RouteProvider, Trade};
use hydradx_traits::{OraclePeriod, PriceOracle};
use kit::*;
use orml_traits::currency::{MutationHooks, OnDeposit, OnTransfer};
use orml_traits::Happened;
use pallet_currencies::BasicCurrencyAdapter;
use pallet_transaction_multi_payment as mp;
pub use primitives::{AccountId, AssetId, Balance};
use sp_core::{H160, H256, U256 as CU256};
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;

// what the taken files call methods of without naming the trait again
#[allow(unused_imports)] use {pallet_evm::AddressMapping, hydradx_traits::{registry::Inspect, NativePriceOracle}, sp_runtime::{traits::{MaybeEquivalence, Zero}, FixedPointNumber}, frame_support::traits::Defensive};
pub mod governance { use super::*; include!(concat!(env!("OUT_DIR"), "/governance.rs")); }
pub mod system { use super::*; pub use frame_support::weights::Weight; include!(concat!(env!("OUT_DIR"), "/system.rs")); }
pub mod module_accounts { use super::*; use super::assets::*; include!(concat!(env!("OUT_DIR"), "/lib.rs")); }
pub mod assets { use super::*; pub use super::governance::*; include!(concat!(env!("OUT_DIR"), "/assets.rs")); }
pub mod xcm { use super::*; include!(concat!(env!("OUT_DIR"), "/xcm.rs")); }
pub use governance::{TreasuryAccount, TreasuryPalletId};
pub use module_accounts::get_all_module_accounts;
pub use system::NativeAssetId;
pub mod evm {
	use pallet_evm::AddressMapping; pub struct ExtendedAddressMapping;
	impl pallet_evm::AddressMapping<super::AccountId> for ExtendedAddressMapping { fn into_account_id(a: super::H160) -> super::AccountId { <super::EVMAccounts as hydradx_traits::evm::InspectEvmAccounts<super::AccountId, super::H160>>::account_id(a) } }
}

construct_runtime!(pub enum Runtime { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies_: pallet_currencies, AssetRegistry: pallet_asset_registry, EVMAccounts: pallet_evm_accounts, TxPay: pallet_transaction_payment, MultiTransactionPayment: pallet_transaction_multi_payment, Duster: pallet_duster, EmaOracle: pallet_ema_oracle, Utility: pallet_utility });
pub type Currencies = pallet_currencies::Pallet<Runtime>;

kit::system_config!(Runtime, AccountId, pallet_balances::AccountData<u128>);
parameter_types! { pub EvmId: u32 = 20; }
/// Who speaks when a token account is about to appear or has gone: the runtime's hooks, or the model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Speaker { Runtime, Model }
pub struct Model { pub funds: fn(AssetId, &AccountId, &AccountId) -> DispatchResult, pub gone: fn(&AccountId, AssetId) }
thread_local! {
	static SPEAKER: RefCell<(Speaker, Option<Model>)> = const { RefCell::new((Speaker::Runtime, None)) };
	static DEPTH: RefCell<(u32, u32)> = const { RefCell::new((0, 0)) };
	static TREASURY: RefCell<Vec<u128>> = const { RefCell::new(vec![]) };
	static SELF_ID: RefCell<u32> = const { RefCell::new(2034) };
}
pub fn speak(s: Speaker) { SPEAKER.with(|x| x.borrow_mut().0 = s) }
pub fn model(m: Model) { SPEAKER.with(|x| x.borrow_mut().1 = Some(m)) }
fn speaker() -> Speaker { SPEAKER.with(|x| x.borrow().0) }
fn funds(a: AssetId, payer: &AccountId, to: &AccountId) -> DispatchResult { let f = SPEAKER.with(|x| x.borrow().1.as_ref().unwrap().funds); f(a, payer, to) }
/// How deep the hooks called themselves.
pub fn deepest() -> u32 { DEPTH.with(|d| std::mem::take(&mut d.borrow_mut().1)) }
/// what the treasury was handed, imbalance by imbalance
pub fn handed() -> Vec<u128> { TREASURY.with(|t| std::mem::take(&mut *t.borrow_mut())) }
struct Deep;
impl Deep { fn enter() -> Result<Self, DispatchError> { DEPTH.with(|d| { let mut d = d.borrow_mut(); if d.0 >= 40 { d.1 = 40; return Err("no end".into()) } d.0 += 1; d.1 = d.1.max(d.0); Ok(Deep) }) } }
impl Drop for Deep { fn drop(&mut self) { DEPTH.with(|d| d.borrow_mut().0 -= 1) } }
pub struct Hooks;
type R = assets::RtHooks;
impl OnTransfer<AccountId, AssetId, Balance> for Hooks {
	fn on_transfer(a: AssetId, from: &AccountId, to: &AccountId, x: Balance) -> DispatchResult {
		let _d = Deep::enter()?;
		match speaker() { Speaker::Runtime => <R as MutationHooks<AccountId, AssetId, Balance>>::PreTransfer::on_transfer(a, from, to, x), Speaker::Model => funds(a, if assets::RtWhitelist::contains(from) { to } else { from }, to) }
	}
}
impl OnDeposit<AccountId, AssetId, Balance> for Hooks {
	fn on_deposit(a: AssetId, to: &AccountId, x: Balance) -> DispatchResult {
		let _d = Deep::enter()?;
		match speaker() { Speaker::Runtime => <R as MutationHooks<AccountId, AssetId, Balance>>::PreDeposit::on_deposit(a, to, x), Speaker::Model => funds(a, to, to) }
	}
}
impl Happened<(AccountId, AssetId)> for Hooks {
	fn happened(x: &(AccountId, AssetId)) {
		match speaker() {
			Speaker::Runtime => <R as MutationHooks<AccountId, AssetId, Balance>>::OnKilledTokenAccount::happened(x),
			Speaker::Model => { mp::RemoveTxAssetOnKilled::<Runtime>::happened(x); let f = SPEAKER.with(|s| s.borrow().1.as_ref().unwrap().gone); f(&x.0, x.1) }
		}
	}
}
impl MutationHooks<AccountId, AssetId, Balance> for Hooks {
	type OnDust = <R as MutationHooks<AccountId, AssetId, Balance>>::OnDust;
	type OnSlash = <R as MutationHooks<AccountId, AssetId, Balance>>::OnSlash;
	type PreDeposit = Hooks;
	type PostDeposit = <R as MutationHooks<AccountId, AssetId, Balance>>::PostDeposit;
	type PreTransfer = Hooks;
	type PostTransfer = <R as MutationHooks<AccountId, AssetId, Balance>>::PostTransfer;
	type OnNewTokenAccount = <R as MutationHooks<AccountId, AssetId, Balance>>::OnNewTokenAccount;
	type OnKilledTokenAccount = Hooks;
}
tokens_config!(Runtime, AssetRegistry, assets::RtWhitelist, Hooks);
impl pallet_balances::Config for Runtime { type MaxLocks = ConstU32<50>; type Balance = u128; type RuntimeEvent = RuntimeEvent; type DustRemoval = assets::RtDust; type ExistentialDeposit = assets::RtNativeEd; type AccountStore = frame_system::Pallet<Runtime>; type WeightInfo = (); type MaxReserves = ConstU32<3>; type ReserveIdentifier = [u8; 8]; type FreezeIdentifier = (); type MaxFreezes = (); type RuntimeHoldReason = (); type RuntimeFreezeReason = (); }
impl pallet_currencies::Config for Runtime { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Runtime, Balances, i128, u64>; type GetNativeCurrencyId = NativeAssetId; type WeightInfo = (); }
impl pallet_asset_registry::Config for Runtime { type RuntimeEvent = RuntimeEvent; type Currency = pallet_currencies::fungibles::FungibleCurrencies<Runtime>; type RegistryOrigin = frame_system::EnsureRoot<AccountId>; type UpdateOrigin = frame_system::EnsureRoot<AccountId>; type AssetId = u32; type AssetNativeLocation = xcm::AssetLocation; type StringLimit = ConstU32<32>; type MinStringLimit = ConstU32<3>; type SequentialIdStartAt = ConstU32<1_000_000>; type RegExternalWeightMultiplier = ConstU64<1>; type WeightInfo = (); }
pub struct EvmNonces;
impl pallet_evm_accounts::EvmNonceProvider for EvmNonces { fn get_nonce(_: H160) -> CU256 { CU256::zero() } }
impl pallet_evm_accounts::Config for Runtime { type RuntimeEvent = RuntimeEvent; type FeeMultiplier = ConstU32<10>; type EvmNonceProvider = EvmNonces; type ControllerOrigin = frame_system::EnsureRoot<AccountId>; type WeightInfo = (); }
impl pallet_transaction_payment::Config for Runtime { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = mp::TransferFees<Currencies, mp::DepositAll<Runtime>, TreasuryAccount>; type LengthToFee = IdentityFee<u128>; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<u128>; type FeeMultiplierUpdate = (); }
pub struct Routes;
impl RouteProvider<u32> for Routes {}
pub struct NoOracle;
impl PriceOracle<u32> for NoOracle { type Price = EmaPrice; fn price(_: &[Trade<u32>], _: OraclePeriod) -> Option<EmaPrice> { None } }
impl pallet_utility::Config for Runtime { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
impl mp::Config for Runtime { type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = frame_system::EnsureRoot<AccountId>; type Currencies = Currencies; type RouteProvider = Routes; type OraclePriceProvider = NoOracle; type WeightInfo = (); type WeightToFee = IdentityFee<u128>; type NativeAssetId = NativeAssetId; type EvmAssetId = EvmId; type InspectEvmAccounts = EVMAccounts; type EvmPermit = NoPermit; type TryCallCurrency<'a> = mp::TryCallCurrency<Runtime>; }
impl pallet_duster::Config for Runtime { type RuntimeEvent = RuntimeEvent; type Balance = u128; type Amount = i128; type CurrencyId = u32; type MultiCurrency = Currencies; type MinCurrencyDeposits = AssetRegistry; type Reward = ConstU128<0>; type NativeCurrencyId = NativeAssetId; type BlacklistUpdateOrigin = frame_system::EnsureRoot<AccountId>; type WeightInfo = (); }
parameter_types! { pub Periods: frame_support::BoundedVec<OraclePeriod, ConstU32<{ pallet_ema_oracle::MAX_PERIODS }>> = frame_support::BoundedVec::truncate_from(vec![OraclePeriod::LastBlock]); }
impl pallet_ema_oracle::Config for Runtime { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type AuthorityOrigin = frame_system::EnsureRoot<AccountId>; type BlockNumberProvider = System; type SupportedPeriods = Periods; type OracleWhitelist = assets::RtOracleWhitelist; type MaxUniqueEntries = ConstU32<40>; }
/// `pallet-treasury`'s account, and what it does with what it is handed.
pub struct Treasury;
impl Treasury { pub fn account_id() -> AccountId { TreasuryPalletId::get().into_account_truncating() } }
impl OnUnbalanced<pallet_balances::NegativeImbalance<Runtime>> for Treasury {
	fn on_nonzero_unbalanced(x: pallet_balances::NegativeImbalance<Runtime>) { TREASURY.with(|t| t.borrow_mut().push(x.peek())); let _ = Balances::resolve_creating(&Self::account_id(), x); }
}
pub struct ParachainInfo;
impl ParachainInfo { pub fn get() -> cumulus_primitives_core::ParaId { SELF_ID.with(|s| *s.borrow()).into() } pub fn parachain_id() -> cumulus_primitives_core::ParaId { Self::get() } pub fn set(x: u32) { SELF_ID.with(|s| *s.borrow_mut() = x) } }
/// permits are not used here
pub struct NoPermit;
impl mp::EVMPermit for NoPermit {
	fn validate_permit(_: H160, _: H160, _: Vec<u8>, _: CU256, _: u64, _: CU256, _: u8, _: H256, _: H256) -> DispatchResult { Err("no permits".into()) }
	fn dispatch_permit(_: H160, _: H160, _: Vec<u8>, _: CU256, _: u64, _: CU256, _: Option<CU256>, _: Option<CU256>, _: Vec<(H160, Vec<H256>)>) -> frame_support::dispatch::DispatchResultWithPostInfo { Err(DispatchError::Other("no permits").into()) }
	fn gas_price() -> (CU256, frame_support::weights::Weight) { Default::default() }
	fn dispatch_weight(_: u64) -> frame_support::weights::Weight { Default::default() }
	fn permit_nonce(_: H160) -> CU256 { CU256::zero() }
	fn on_dispatch_permit_error() {}
}
