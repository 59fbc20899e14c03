//! The EVM side of the runtime: the real files of `runtime/hydradx/src/evm`, compiled into a runtime made of the real
//! pallets around them. What is not here (the interpreter, prices, the clock) is played by `World` and `Vm`.
#![allow(clippy::all)]
use codec::Encode;
use frame_support::traits::Get;
use frame_support::weights::{IdentityFee, Weight};
use hydra_dx_math::ema::EmaPrice;
use hydra_dx_math::types::Ratio;
use hydradx_traits::router::{RouteProvider, Trade};
use hydradx_traits::{NativePriceOracle, OraclePeriod, PriceOracle};
use kit::*;
use orml_traits::GetByKey;
use pallet_currencies::BasicCurrencyAdapter;
use pallet_transaction_multi_payment as mp;
pub use primitives::{AccountId, AssetId, Balance};
use sp_core::{H160, H256, U256 as CU256};
use sp_runtime::helpers_128bit::multiply_by_rational_with_rounding;
use sp_runtime::{AccountId32, Rounding};
use std::cell::RefCell;
use std::collections::BTreeMap;

pub mod evm {
	pub use accounts_conversion::{ExtendedAddressMapping, FindAuthorTruncated};
	pub use frame_support::{traits::FindAuthor, ConsensusEngineId};
	#[path = "/repo/runtime/hydradx/src/evm/accounts_conversion.rs"]
	pub mod accounts_conversion;
	#[path = "/repo/runtime/hydradx/src/evm/evm_fee.rs"]
	pub mod evm_fee;
	#[path = "/repo/runtime/hydradx/src/evm/permit.rs"]
	pub mod permit;
	#[path = "/repo/runtime/hydradx/src/evm/precompiles/mod.rs"]
	pub mod precompiles;
	#[path = "/repo/runtime/hydradx/src/evm/runner.rs"]
	pub mod runner;
	pub struct WethAssetId;
	impl super::Get<super::AssetId> for WethAssetId { fn get() -> super::AssetId { super::WETH } }
}
pub const WETH: AssetId = 20;
pub const NATIVE: AssetId = 0;
construct_runtime!(pub enum Runtime { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies_: pallet_currencies, Registry: pallet_asset_registry, EvmAccounts: pallet_evm_accounts, Pause: pallet_transaction_pause, EvmFee: pallet_dynamic_evm_fee, TxPay: pallet_transaction_payment, MultiTransactionPayment: pallet_transaction_multi_payment, Utility: pallet_utility });
pub type Currencies = pallet_currencies::Pallet<Runtime>;
pub type EVMAccounts = pallet_evm_accounts::Pallet<Runtime>;

/// What surrounds the code under test.
#[derive(Clone, Debug)]
pub struct World {
	/// milliseconds
	pub now: u64,
	pub chain: u64,
	pub block_gas: CU256,
	/// units of the currency for one unit of WETH
	pub prices: BTreeMap<AssetId, (u128, u128)>,
	pub eds: BTreeMap<AssetId, u128>,
	pub authors: Vec<[u8; 32]>,
	/// how the next calls of the interpreter end
	pub ends: Vec<End>,
	pub gas_used: u64,
	pub runs: Vec<Ran>,
	/// what the runner's balance adapter says, when it is not asked the account
	pub balance: Option<u128>,
	pub asked: Vec<(AssetId, AccountId32)>,
	pub to_treasury: Vec<(AssetId, u128)>,
	pub db: (u64, u64),
	pub gas_config: pallet_evm::EvmConfig,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End { Ok, Revert, Error, Fatal, Refused }
/// A call the runner passed on to the interpreter.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ran { pub kind: u8, pub source: H160, pub target: Option<H160>, pub input: Vec<u8>, pub salt: Option<H256>, pub value: CU256, pub gas: u64, pub max_fee: Option<CU256>, pub tip: Option<CU256>, pub nonce: Option<CU256>, pub list: Vec<(H160, Vec<H256>)>, pub tx: bool, pub validate: bool, pub weight: Option<Weight>, pub proof: Option<u64>, pub currency: Option<AssetId> }
impl Default for World { fn default() -> Self { World { now: 0, chain: 222222, block_gas: 15_000_000u64.into(), prices: Default::default(), eds: Default::default(), authors: vec![], ends: vec![], gas_used: 21_000, runs: vec![], balance: None, asked: vec![], to_treasury: vec![], db: (25_000_000, 100_000_000), gas_config: pallet_evm::EvmConfig::shanghai() } } }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }

impl frame_system::Config for Runtime {
	type BaseCallFilter = Everything;
	type BlockWeights = ();
	type BlockLength = ();
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type RuntimeTask = RuntimeTask;
	type Nonce = u32;
	type Block = frame_system::mocking::MockBlock<Runtime>;
	type Hash = H256;
	type Hashing = sp_runtime::traits::BlakeTwo256;
	type AccountId = AccountId32;
	type Lookup = sp_runtime::traits::IdentityLookup<AccountId32>;
	type RuntimeEvent = RuntimeEvent;
	type BlockHashCount = ConstU64<250>;
	type DbWeight = Db;
	type Version = ();
	type PalletInfo = PalletInfo;
	type AccountData = pallet_balances::AccountData<u128>;
	type OnNewAccount = ();
	type OnKilledAccount = ();
	type SystemWeightInfo = ();
	type SS58Prefix = ConstU16_63;
	type OnSetCode = ();
	type MaxConsumers = ConstU32<16>;
}
pub struct Db;
impl Get<frame_support::weights::RuntimeDbWeight> for Db { fn get() -> frame_support::weights::RuntimeDbWeight { let (read, write) = world(|w| w.db); frame_support::weights::RuntimeDbWeight { read, write } } }
pub struct Eds;
impl GetByKey<u32, u128> for Eds { fn get(a: &u32) -> u128 { world(|w| w.eds.get(a).copied().unwrap_or(1)) } }
parameter_types! { pub NativeEd: u128 = <Eds as GetByKey<u32, u128>>::get(&NATIVE); pub NativeId: u32 = NATIVE; pub EvmId: u32 = WETH; pub TreasuryAccount: AccountId32 = AccountId32::new([7u8; 32]); pub ChainId: u64 = world(|w| w.chain); pub GasLimit: CU256 = world(|w| w.block_gas); pub Fixed1: FixedU128 = FixedU128::from_u32(1); }
tokens_config!(Runtime, Eds, Nothing, ());
impl pallet_balances::Config for Runtime { type MaxLocks = ConstU32<50>; type Balance = u128; type RuntimeEvent = RuntimeEvent; type DustRemoval = (); type ExistentialDeposit = NativeEd; type AccountStore = frame_system::Pallet<Runtime>; type WeightInfo = (); type MaxReserves = ConstU32<3>; type ReserveIdentifier = [u8; 8]; type FreezeIdentifier = (); type MaxFreezes = (); type RuntimeHoldReason = (); type RuntimeFreezeReason = (); }
impl pallet_currencies::Config for Runtime { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Runtime, Balances, i128, u64>; type GetNativeCurrencyId = NativeId; type WeightInfo = (); }
impl pallet_asset_registry::Config for Runtime { type RuntimeEvent = RuntimeEvent; type Currency = Tokens; type RegistryOrigin = frame_system::EnsureRoot<AccountId32>; type UpdateOrigin = frame_system::EnsureRoot<AccountId32>; type AssetId = u32; type AssetNativeLocation = u8; type StringLimit = ConstU32<100>; type MinStringLimit = ConstU32<1>; type SequentialIdStartAt = ConstU32<1_000_000>; type RegExternalWeightMultiplier = ConstU64<1>; type WeightInfo = (); }
pub struct EvmNonces;
impl pallet_evm_accounts::EvmNonceProvider for EvmNonces { fn get_nonce(a: H160) -> CU256 { pallet_evm::Pallet::<Runtime>::account_basic(&a).0.nonce } }
impl pallet_evm_accounts::Config for Runtime { type RuntimeEvent = RuntimeEvent; type FeeMultiplier = ConstU32<10>; type EvmNonceProvider = EvmNonces; type ControllerOrigin = frame_system::EnsureRoot<AccountId32>; type WeightInfo = (); }
impl pallet_transaction_pause::Config for Runtime { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = frame_system::EnsureRoot<AccountId32>; type WeightInfo = (); }
parameter_types! { pub Base: u128 = 15_000_000; pub MinBase: u128 = 1_500_000; pub MaxBase: u128 = 14_415_000_000; }
pub struct NoPrice;
impl NativePriceOracle<u32, Ratio> for NoPrice { fn price(_: u32) -> Option<Ratio> { None } }
impl pallet_dynamic_evm_fee::Config for Runtime { type AssetId = u32; type MinBaseFeePerGas = MinBase; type MaxBaseFeePerGas = MaxBase; type DefaultBaseFeePerGas = Base; type FeeMultiplier = Fixed1; type NativePriceOracle = NoPrice; type WethAssetId = EvmId; type WeightInfo = (); }
impl pallet_utility::Config for Runtime { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
impl pallet_transaction_payment::Config for Runtime { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = mp::TransferFees<Currencies, mp::DepositAll<Runtime>, TreasuryAccount>; type LengthToFee = IdentityFee<u128>; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<u128>; type FeeMultiplierUpdate = (); }
pub struct Routes;
impl RouteProvider<u32> for Routes {}
pub struct NoOracle;
impl PriceOracle<u32> for NoOracle { type Price = EmaPrice; fn price(_: &[Trade<u32>], _: OraclePeriod) -> Option<EmaPrice> { None } }
impl mp::Config for Runtime { type RuntimeEvent = RuntimeEvent; type AcceptedCurrencyOrigin = frame_system::EnsureRoot<AccountId32>; type Currencies = Currencies; type RouteProvider = Routes; type OraclePriceProvider = NoOracle; type WeightInfo = (); type WeightToFee = IdentityFee<u128>; type NativeAssetId = NativeId; type EvmAssetId = EvmId; type InspectEvmAccounts = EVMAccounts; type EvmPermit = evm::permit::EvmPermitHandler<Runtime>; type TryCallCurrency<'a> = mp::TryCallCurrency<Runtime>; }

// ---- pallet-evm
pub struct Clock;
impl frame_support::traits::Time for Clock { type Moment = u64; fn now() -> u64 { world(|w| w.now) } }
/// 25000 units of reference time for one unit of gas
pub struct Gas;
impl pallet_evm::GasWeightMapping for Gas {
	fn gas_to_weight(g: u64, without_base: bool) -> Weight { Weight::from_parts(g.saturating_mul(25_000) + if without_base { 0 } else { 1 }, 0) }
	fn weight_to_gas(w: Weight) -> u64 { w.ref_time() / 25_000 }
}
pub type Contracts = evm::precompiles::HydraDXPrecompiles<Runtime>;
pub struct ContractsValue;
impl Get<Contracts> for ContractsValue { fn get() -> Contracts { Contracts::new() } }
/// the price of a currency in WETH, rounded up like the runtime's
pub struct Convert;
impl sp_runtime::traits::Convert<(AssetId, AssetId, Balance), Option<(Balance, EmaPrice)>> for Convert {
	fn convert((from, to, x): (AssetId, AssetId, Balance)) -> Option<(Balance, EmaPrice)> {
		if from == to { return Some((x, EmaPrice::new(1, 1))) }
		if from != WETH { return None }
		let (n, d) = world(|w| w.prices.get(&to).copied())?;
		Some((multiply_by_rational_with_rounding(x, n, d, Rounding::Up)?, EmaPrice::new_unchecked(n, d)))
	}
}
pub struct Shown;
impl hydradx_traits::AccountFeeCurrencyBalanceInCurrency<AssetId, AccountId32> for Shown {
	type Output = (Balance, Weight);
	fn get_balance_in_currency(a: AssetId, who: &AccountId32) -> (Balance, Weight) {
		world(|w| w.asked.push((a, who.clone())));
		(world(|w| w.balance).unwrap_or(u128::MAX), Weight::from_parts(3, 0))
	}
}
pub type Fees = evm::evm_fee::TransferEvmFees<evm::evm_fee::DepositEvmFeeToTreasury, evm::evm_fee::FeeCurrencyOverrideOrDefault<evm::WethAssetId>, evm::WethAssetId, Convert, pallet_currencies::fungibles::FungibleCurrencies<Runtime>>;
impl pallet_evm::Config for Runtime {
	type FeeCalculator = pallet_dynamic_evm_fee::Pallet<Runtime>;
	type GasWeightMapping = Gas;
	type AddressMapping = evm::ExtendedAddressMapping;
	type PrecompilesType = Contracts;
	type PrecompilesValue = ContractsValue;
	type ChainId = ChainId;
	type BlockGasLimit = GasLimit;
	type Runner = evm::runner::WrapRunner<Runtime, Vm, Shown>;
	type OnChargeTransaction = Fees;
	type Timestamp = Clock;
}
pub struct Author(pub [u8; 32]);
impl Author { pub fn to_raw_vec(&self) -> Vec<u8> { self.0.to_vec() } }
impl Clone for Author { fn clone(&self) -> Self { Author(self.0) } }
pub struct Aura;
impl Aura { pub fn authorities() -> Vec<Author> { world(|w| w.authors.iter().map(|a| Author(*a)).collect()) } }

thread_local! { static INNER: RefCell<Option<Box<dyn FnOnce(&Ran)>>> = const { RefCell::new(None) }; }
/// What the next call does while it runs.
pub fn inner(f: Option<Box<dyn FnOnce(&Ran)>>) { INNER.with(|i| *i.borrow_mut() = f) }

/// The interpreter's place: takes the fee, bumps the nonce, ends as told, gives back what was not used.
pub struct Vm;
use pallet_evm::{runner::Runner, AddressMapping, CallInfo, CreateInfo, FeeCalculator, OnChargeEVMTransaction, RunnerError};
type No = RunnerError<pallet_evm::Error<Runtime>>;
impl Vm {
	fn run<T>(r: Ran, value: T) -> Result<pallet_evm::ExecutionInfoV2<T>, No> {
		let end = world(|w| { w.runs.push(r.clone()); if w.ends.is_empty() { End::Ok } else { w.ends.remove(0) } });
		let weight = Weight::from_parts(11, 0);
		if end == End::Refused { return Err(RunnerError { error: pallet_evm::Error::Undefined, weight }) }
		let base = <Runtime as pallet_evm::Config>::FeeCalculator::min_gas_price().0;
		let per_gas = match (r.max_fee, r.tip) { (Some(m), _) if m.is_zero() => CU256::zero(), (Some(_), None) => base, (Some(m), Some(t)) => base.saturating_add(m.saturating_sub(base).min(t)), _ => CU256::zero() };
		let paid = Fees::withdraw_fee(&r.source, per_gas.saturating_mul(r.gas.into())).map_err(|error| RunnerError { error, weight })?;
		frame_system::Account::<Runtime>::mutate(evm::ExtendedAddressMapping::into_account_id(r.source), |a| a.nonce += 1);
		if let Some(f) = INNER.with(|i| i.borrow_mut().take()) { let _ = frame_support::storage::with_storage_layer(|| -> sp_runtime::DispatchResult { f(&r); if end == End::Ok { Ok(()) } else { Err("rolled back".into()) } }); }
		let used = world(|w| w.gas_used).min(r.gas);
		let tip = Fees::correct_and_deposit_fee(&r.source, per_gas.saturating_mul(used.into()), base, paid).map_err(|error| RunnerError { error, weight })?;
		<Fees as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(tip);
		use pallet_evm::*;
		let exit_reason = match end { End::Revert => ExitReason::Revert(ExitRevert::Reverted), End::Error => ExitReason::Error(ExitError::OutOfGas), End::Fatal => ExitReason::Fatal(ExitFatal::NotSupported), _ => ExitReason::Succeed(ExitSucceed::Returned) };
		Ok(ExecutionInfoV2 { exit_reason, value, used_gas: fp_evm::UsedGas { standard: used.into(), effective: used.into() }, weight_info: Some(fp_evm::WeightInfo { proof_size_usage: Some(used / 3), ..Default::default() }), logs: vec![] })
	}
	fn currency(a: H160) -> Option<AssetId> { mp::Pallet::<Runtime>::tx_fee_currency_override(evm::ExtendedAddressMapping::into_account_id(a)) }
}
impl Runner<Runtime> for Vm {
	type Error = pallet_evm::Error<Runtime>;
	fn validate(_: H160, _: Option<H160>, _: Vec<u8>, _: CU256, _: u64, _: Option<CU256>, _: Option<CU256>, _: Option<CU256>, _: Vec<(H160, Vec<H256>)>, _: bool, _: Option<Weight>, _: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<(), No> { panic!("the wrapped runner's own validation is not used") }
	fn call(source: H160, target: H160, input: Vec<u8>, value: CU256, gas: u64, max_fee: Option<CU256>, tip: Option<CU256>, nonce: Option<CU256>, list: Vec<(H160, Vec<H256>)>, tx: bool, validate: bool, weight: Option<Weight>, proof: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CallInfo, No> {
		Vm::run(Ran { kind: 0, source, target: Some(target), input: input.clone(), salt: None, value, gas, max_fee, tip, nonce, list, tx, validate, weight, proof, currency: Vm::currency(source) }, input)
	}
	fn create(source: H160, input: Vec<u8>, value: CU256, gas: u64, max_fee: Option<CU256>, tip: Option<CU256>, nonce: Option<CU256>, list: Vec<(H160, Vec<H256>)>, tx: bool, validate: bool, weight: Option<Weight>, proof: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CreateInfo, No> {
		Vm::run(Ran { kind: 1, source, target: None, input, salt: None, value, gas, max_fee, tip, nonce, list, tx, validate, weight, proof, currency: Vm::currency(source) }, H160::repeat_byte(1))
	}
	fn create2(source: H160, input: Vec<u8>, salt: H256, value: CU256, gas: u64, max_fee: Option<CU256>, tip: Option<CU256>, nonce: Option<CU256>, list: Vec<(H160, Vec<H256>)>, tx: bool, validate: bool, weight: Option<Weight>, proof: Option<u64>, _: &pallet_evm::EvmConfig) -> Result<CreateInfo, No> {
		Vm::run(Ran { kind: 2, source, target: None, input, salt: Some(salt), value, gas, max_fee, tip, nonce, list, tx, validate, weight, proof, currency: Vm::currency(source) }, H160::repeat_byte(2))
	}
}
#[allow(unused)] fn _codec(x: u32) -> Vec<u8> { x.encode() }

/// A precompile call: what the interpreter would hand over, and what it would have seen.
pub struct Handle { pub code: H160, pub ctx: fp_evm::Context, pub data: Vec<u8>, pub fixed: bool, pub gas: u64, pub spent: u64, pub logs: Vec<fp_evm::Log>, pub external: Vec<(Option<u64>, Option<u64>, Option<u64>)>, pub refunds: Vec<(Option<u64>, Option<u64>)>, pub calls: Vec<SubCall>, pub answer: Box<dyn FnMut(&SubCall) -> (fp_evm::ExitReason, Vec<u8>)> }
#[derive(Clone, Debug, PartialEq)]
pub struct SubCall { pub to: H160, pub transfer: Option<fp_evm::Transfer>, pub input: Vec<u8>, pub gas: Option<u64>, pub fixed: bool, pub ctx: fp_evm::Context, pub left: u64 }
impl Handle {
	pub fn new(code: H160, caller: H160, data: Vec<u8>) -> Self { Handle { code, ctx: fp_evm::Context { address: code, caller, apparent_value: CU256::zero() }, data, fixed: false, gas: u64::MAX, spent: 0, logs: vec![], external: vec![], refunds: vec![], calls: vec![], answer: Box::new(|_| (fp_evm::ExitSucceed::Returned.into(), vec![])) } }
}
impl fp_evm::PrecompileHandle for Handle {
	fn call(&mut self, to: H160, transfer: Option<fp_evm::Transfer>, input: Vec<u8>, gas: Option<u64>, fixed: bool, ctx: &fp_evm::Context) -> (fp_evm::ExitReason, Vec<u8>) {
		let c = SubCall { to, transfer, input, gas, fixed, ctx: ctx.clone(), left: self.gas };
		self.calls.push(c.clone());
		(self.answer)(&c)
	}
	fn record_cost(&mut self, cost: u64) -> Result<(), fp_evm::ExitError> { if cost > self.gas { return Err(fp_evm::ExitError::OutOfGas) } self.gas -= cost; self.spent += cost; Ok(()) }
	fn record_external_cost(&mut self, a: Option<u64>, b: Option<u64>, c: Option<u64>) -> Result<(), fp_evm::ExitError> { self.external.push((a, b, c)); Ok(()) }
	fn refund_external_cost(&mut self, a: Option<u64>, b: Option<u64>) { self.refunds.push((a, b)) }
	fn remaining_gas(&self) -> u64 { self.gas }
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), fp_evm::ExitError> { self.logs.push(fp_evm::Log { address, topics, data }); Ok(()) }
	fn code_address(&self) -> H160 { self.code }
	fn input(&self) -> &[u8] { &self.data }
	fn context(&self) -> &fp_evm::Context { &self.ctx }
	fn is_static(&self) -> bool { self.fixed }
	fn gas_limit(&self) -> Option<u64> { Some(self.gas) }
}
