use frame_support::{storage::{with_storage_layer, with_transaction_unchecked}, traits::{AsEnsureOriginWithArg, Contains, Hooks}, weights::Weight, BoundedVec, PalletId};
use frame_system::RawOrigin;
use hydra_dx_math::{omnipool::types::BalanceUpdate, ratio::Ratio, stableswap::calculate_share_prices, stableswap::types::AssetReserve};
use hydradx_adapters::*;
use hydradx_traits::{liquidity_mining::PriceAdjustment, AccountIdFor, AggregatedOracle, AggregatedPriceOracle, OnLiquidityChangedHandler, OnTradeHandler, OraclePeriod, Source};
use kit::fakes::{NftOf, White};
use kit::*;
use pallet_asset_registry::AssetType;
use pallet_dynamic_fees::{traits::{Volume, VolumeProvider}, types::FeeParams, UpdateAndRetrieveFees};
use pallet_ema_oracle::OnActivityHandler;
use pallet_omnipool::traits::{AssetInfo, ExternalPriceProvider, OmnipoolHooks};
use pallet_stableswap::types::{AssetAmount, PoolState, StableswapHooks};
use primitives::AccountId;
use sp_runtime::{traits::BlockNumberProvider, TransactionOutcome};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::num::NonZeroU16;
use std::ops::RangeInclusive;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Omnipool: pallet_omnipool, Stable: pallet_stableswap, Oracle: pallet_ema_oracle, Breaker: pallet_circuit_breaker, Referrals: pallet_referrals, Staking: pallet_staking, Fees: pallet_dynamic_fees, Registry: pallet_asset_registry, Timestamp: pallet_timestamp, Bonds: pallet_bonds, Warehouse: pallet_liquidity_mining, Uniques: pallet_uniques });
const HDX: AssetId = 0;
const HUB: AssetId = 1;
const TOKENS: [AssetId; 4] = [0, 2, 3, 4];
const POOL: AssetId = 100;
const POOL_ASSETS: [AssetId; 3] = [10, 11, 12];
const OMNI: Source = *b"omnipool";
const STABLE: Source = *b"stablesw";
fn w(i: u8) -> AccountId { AccountId::new([i; 32]) }
fn sg(i: u8) -> RuntimeOrigin { RawOrigin::Signed(w(i)).into() }
fn me() -> AccountId { Omnipool::protocol_account() }
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { trade: u32, add: Option<u32>, remove: Option<u32>, fees: (u32, u32), decay: u8, table: Vec<(u32, u32, u32)>, external: bool, min_wd: u32 }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); static MODE: Cell<Mode> = Cell::new(Mode::Off); static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]); static PRICES: RefCell<BTreeMap<AssetId, (u128, u128)>> = RefCell::new(Default::default()); }
fn cfg() -> Cfg { CFG.with(|c| c.borrow().clone()) }
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode { Off, Real, Model }
system_config!(Test, AccountId, pallet_balances::AccountData<u128>);
tokens_config!(Test, OneEd, Pool, ());
pub struct Pool;
impl Contains<AccountId> for Pool { fn contains(a: &AccountId) -> bool { *a == me() } }
impl pallet_balances::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
	type WeightInfo = ();
	type Balance = u128;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<1>;
	type AccountStore = System;
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = ();
	type MaxLocks = ConstU32<50>;
	type MaxReserves = ConstU32<50>;
	type MaxFreezes = ConstU32<0>;
}
parameter_types! {
	pub const Hdx: AssetId = HDX;
	pub const Hub: AssetId = HUB;
	pub const Coll: u32 = 1337;
	pub MinWd: Permill = Permill::from_parts(cfg().min_wd);
	pub const MinTrade: u128 = 1_000;
	pub const MinLiq: u128 = 1_000;
	pub const Ratio3: u128 = 3;
	pub Periods: BoundedVec<OraclePeriod, ConstU32<{ pallet_ema_oracle::MAX_PERIODS }>> = BoundedVec::truncate_from(vec![OraclePeriod::LastBlock, OraclePeriod::Short, OraclePeriod::TenMinutes]);
	pub const LastBlock: OraclePeriod = OraclePeriod::LastBlock;
	pub const Short: OraclePeriod = OraclePeriod::Short;
	pub Trade: (u32, u32) = (cfg().trade, 1_000_000);
	pub Add: Option<(u32, u32)> = cfg().add.map(|x| (x, 1_000_000));
	pub Remove: Option<(u32, u32)> = cfg().remove.map(|x| (x, 1_000_000));
	pub RegFee: (AssetId, u128, AccountId) = (HDX, 10, w(60));
	pub External: Option<AccountId> = if cfg().external { Some(w(61)) } else { None };
	pub const RefPot: PalletId = PalletId(*b"referral");
	pub const StakePot: PalletId = PalletId(*b"staking#");
	pub const TimeW: Permill = Permill::from_percent(10);
	pub const ActionW: Perbill = Perbill::from_percent(10);
	pub const One: u8 = 1;
	pub Amp: RangeInclusive<NonZeroU16> = RangeInclusive::new(NonZeroU16::new(1).unwrap(), NonZeroU16::new(10_000).unwrap());
	pub AssetP: FeeParams<Permill> = { let c = cfg(); FeeParams { min_fee: Permill::from_parts(c.fees.0), max_fee: Permill::from_parts(c.fees.0 * 3), decay: FixedU128::from_rational(c.decay as u128, 100_000), amplification: FixedU128::from(2) } };
	pub ProtocolP: FeeParams<Permill> = { let c = cfg(); FeeParams { min_fee: Permill::from_parts(c.fees.1), max_fee: Permill::from_parts(c.fees.1 * 2), decay: FixedU128::from_rational(c.decay as u128, 50_000), amplification: FixedU128::from(1) } };
	pub const BondPot: PalletId = PalletId(*b"py/bonds");
	pub BondFee: Permill = Permill::zero();
	pub FeeTo: AccountId = w(62);
	pub const FarmPot: PalletId = PalletId(*b"lm/farms");
	pub Treasury: AccountId = w(63);
}
pub struct Reg;
impl orml_traits::GetByKey<AssetId, u128> for Reg { fn get(_: &AssetId) -> u128 { 1 } }
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(_: AssetId) -> bool { true }
	fn exists(_: AssetId) -> bool { true }
	fn decimals(a: AssetId) -> Option<u8> { Some(match a { 10 => 6, 11 => 12, _ => 18 }) }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(_: AssetId) -> Option<u128> { Some(1) }
}
impl pallet_omnipool::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Currency = Tokens;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetRegistry = Reg;
	type HdxAssetId = Hdx;
	type HubAssetId = Hub;
	type Fee = UpdateAndRetrieveFees<Test>;
	type MinWithdrawalFee = MinWd;
	type MinimumTradingLimit = MinTrade;
	type MinimumPoolLiquidity = MinLiq;
	type MaxInRatio = Ratio3;
	type MaxOutRatio = Ratio3;
	type PositionItemId = u32;
	type CollectionId = u32;
	type NFTCollectionId = Coll;
	type NFTHandler = NftOf<AccountId, u32, u32>;
	type WeightInfo = ();
	type OmnipoolHooks = Switch;
	type PriceBarrier = ();
	type ExternalPriceOracle = EmaOraclePriceAdapter<Short, Test>;
}
impl pallet_ema_oracle::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type AuthorityOrigin = frame_system::EnsureRoot<AccountId>; type BlockNumberProvider = System; type SupportedPeriods = Periods; type OracleWhitelist = Everything; type MaxUniqueEntries = ConstU32<12>; }
pub struct Exempt;
impl Contains<AccountId> for Exempt { fn contains(a: &AccountId) -> bool { *a == w(4) } }
impl pallet_circuit_breaker::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Balance = u128;
	type TechnicalOrigin = frame_system::EnsureRoot<AccountId>;
	type WhitelistedAccounts = Exempt;
	type DefaultMaxNetTradeVolumeLimitPerBlock = Trade;
	type DefaultMaxAddLiquidityLimitPerBlock = Add;
	type DefaultMaxRemoveLiquidityLimitPerBlock = Remove;
	type OmnipoolHubAsset = Hub;
	type WeightInfo = ();
}
pub struct Prices;
impl hydradx_traits::price::PriceProvider<AssetId> for Prices { type Price = Ratio; fn get_price(a: AssetId, b: AssetId) -> Option<Ratio> { if a != HDX { return None } PRICES.with(|p| p.borrow().get(&b).map(|(n, d)| Ratio::new(*n, *d))) } }
pub struct NoMarket;
impl pallet_referrals::traits::Convert<AccountId, AssetId, u128> for NoMarket { type Error = DispatchError; fn convert(_: AccountId, _: AssetId, _: AssetId, _: u128) -> Result<u128, DispatchError> { Err(DispatchError::Other("closed")) } }
pub struct Table;
impl orml_traits::GetByKey<pallet_referrals::Level, (u128, pallet_referrals::FeeDistribution)> for Table { fn get(l: &pallet_referrals::Level) -> (u128, pallet_referrals::FeeDistribution) { use pallet_referrals::Level::*; let i = match l { None => 0, Tier0 => 1, Tier1 => 2, Tier2 => 3, Tier3 => 4, Tier4 => 5 }; let t = cfg().table[i % 2]; (u128::MAX, pallet_referrals::FeeDistribution { referrer: Permill::from_parts(t.0), trader: Permill::from_parts(t.1), external: Permill::from_parts(t.2) }) } }
impl pallet_referrals::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetId = AssetId;
	type Currency = Tokens;
	type Convert = NoMarket;
	type PriceProvider = Prices;
	type RewardAsset = Hdx;
	type PalletId = RefPot;
	type RegistrationFee = RegFee;
	type CodeLength = ConstU32<7>;
	type MinCodeLength = ConstU32<3>;
	type LevelVolumeAndRewardPercentages = Table;
	type ExternalAccount = External;
	type SeedNativeAmount = ConstU128<0>;
	type WeightInfo = ();
}
pub struct Zero;
impl pallet_staking::traits::PayablePercentage<u128> for Zero { fn get(_: u128) -> Option<FixedU128> { Some(FixedU128::from_inner(0)) } }
impl orml_traits::GetByKey<FixedU128, u128> for Zero { fn get(_: &FixedU128) -> u128 { 0 } }
impl orml_traits::GetByKey<pallet_staking::types::Action, u32> for Zero { fn get(_: &pallet_staking::types::Action) -> u32 { 1 } }
impl pallet_staking::traits::DemocracyReferendum for Zero { fn is_referendum_finished(_: u32) -> bool { false } }
impl pallet_staking::traits::VestingDetails<AccountId, u128> for Zero { fn locked(_: AccountId) -> u128 { 0 } }
impl pallet_staking::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type AssetId = AssetId;
	type Currency = Tokens;
	type PeriodLength = ConstU64<10>;
	type PalletId = StakePot;
	type NativeAssetId = Hdx;
	type MinStake = ConstU128<1>;
	type TimePointsWeight = TimeW;
	type ActionPointsWeight = ActionW;
	type TimePointsPerPeriod = One;
	type UnclaimablePeriods = ConstU128<1>;
	type CurrentStakeWeight = One;
	type MaxVotes = ConstU32<3>;
	type NFTCollectionId = Coll;
	type PayablePercentage = Zero;
	type BlockNumberProvider = System;
	type PositionItemId = u32;
	type CollectionId = u32;
	type Collections = Freezer;
	type NFTHandler = NftOf<AccountId, u32, u32>;
	type MinSlash = Zero;
	type MaxPointsPerAction = Zero;
	type ReferendumInfo = Zero;
	type Vesting = Zero;
	type WeightInfo = ();
}
pub struct Freezer;
impl pallet_staking::traits::Freeze<AccountId, u32> for Freezer { fn freeze_collection(_: AccountId, _: u32) -> DispatchResult { Ok(()) } }
type Volumes = OracleAssetVolumeProvider<Test, Hub, LastBlock>;
impl pallet_dynamic_fees::Config for Test { type RuntimeEvent = RuntimeEvent; type BlockNumberProvider = System; type Fee = Permill; type AssetId = AssetId; type Oracle = Volumes; type AssetFeeParameters = AssetP; type ProtocolFeeParameters = ProtocolP; }
pub struct ShareAcc;
impl AccountIdFor<AssetId> for ShareAcc { type AccountId = AccountId; fn from_assets(p: &AssetId, _: Option<&[u8]>) -> AccountId { w(*p as u8) } fn name(p: &AssetId, _: Option<&[u8]>) -> Vec<u8> { p.to_le_bytes().to_vec() } }
impl pallet_stableswap::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type BlockNumberProvider = System;
	type AssetId = AssetId;
	type Currency = Tokens;
	type ShareAccountId = ShareAcc;
	type AssetInspection = Reg;
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId>;
	type DustAccountHandler = NoDust;
	type Hooks = Switch;
	type MinPoolLiquidity = MinLiq;
	type MinTradingLimit = MinTrade;
	type AmplificationRange = Amp;
	type WeightInfo = ();
}
pub struct NoDust;
impl hydradx_traits::pools::DustRemovalAccountWhitelist<AccountId> for NoDust { type Error = DispatchError; fn add_account(_: &AccountId) -> DispatchResult { Ok(()) } fn remove_account(_: &AccountId) -> DispatchResult { Ok(()) } }
impl pallet_asset_registry::Config for Test { type RuntimeEvent = RuntimeEvent; type Currency = Tokens; type RegistryOrigin = frame_system::EnsureRoot<AccountId>; type UpdateOrigin = frame_system::EnsureRoot<AccountId>; type AssetId = u32; type AssetNativeLocation = u8; type StringLimit = ConstU32<32>; type MinStringLimit = ConstU32<1>; type SequentialIdStartAt = ConstU32<1_000_000>; type RegExternalWeightMultiplier = ConstU64<1>; type WeightInfo = (); }
impl pallet_timestamp::Config for Test { type Moment = u64; type OnTimestampSet = (); type MinimumPeriod = ConstU64<1>; type WeightInfo = (); }
impl pallet_bonds::Config for Test { type RuntimeEvent = RuntimeEvent; type Balance = u128; type Currency = Tokens; type AssetRegistry = Registry; type ExistentialDeposits = OneEd; type TimestampProvider = Timestamp; type PalletId = BondPot; type IssueOrigin = frame_system::EnsureSigned<AccountId>; type AssetTypeWhitelist = Everything; type ProtocolFee = BondFee; type FeeReceiver = FeeTo; type WeightInfo = (); }
type Adjust = PriceAdjustmentAdapter<Test, (), OmniSource>;
pub struct OmniSource;
impl Get<Source> for OmniSource { fn get() -> Source { OMNI } }
impl pallet_liquidity_mining::Config for Test { type RuntimeEvent = RuntimeEvent; type AssetId = AssetId; type MultiCurrency = Tokens; type PalletId = FarmPot; type TreasuryAccountId = Treasury; type MinTotalFarmRewards = ConstU128<1>; type MinPlannedYieldingPeriods = ConstU64<1>; type BlockNumberProvider = System; type AmmPoolId = AssetId; type MaxFarmEntriesPerDeposit = ConstU32<5>; type MaxYieldFarmsPerGlobalFarm = ConstU32<5>; type AssetRegistry = Reg; type NonDustableWhitelistHandler = NoDust; type PriceAdjustment = Adjust; }
impl pallet_uniques::Config for Test { type RuntimeEvent = RuntimeEvent; type CollectionId = u128; type ItemId = u128; type Currency = Balances; type ForceOrigin = frame_system::EnsureRoot<AccountId>; type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<AccountId>>; type Locker = (); type CollectionDeposit = ConstU128<0>; type ItemDeposit = ConstU128<0>; type MetadataDepositBase = ConstU128<1>; type AttributeDepositBase = ConstU128<1>; type DepositPerByte = ConstU128<1>; type StringLimit = ConstU32<8>; type KeyLimit = ConstU32<8>; type ValueLimit = ConstU32<8>; type WeightInfo = (); }
impl cumulus_pallet_parachain_system::Config for Test {}

// ---- what the pools report: to the adapters, or to the model
type Info = AssetInfo<AssetId, u128>;
type Real = OmnipoolHookAdapter<RuntimeOrigin, Hdx, Hub, Test>;
/// asset, hub: before, after
#[derive(Clone, Debug)]
enum Seen { Liq { a: AssetId, after: (u128, u128), delta: (u128, u128) }, Swap { a: AssetId, before: u128, after: (u128, u128), x: (u128, u128), sold: bool }, Fee { a: AssetId, x: u128, used: u128 }, Stable { a: AssetId, after: u128, delta: u128, shares: u128, trade: bool } }
fn note(s: Seen) { SEEN.with(|v| v.borrow_mut().push(s)) }
fn size(x: &BalanceUpdate<u128>) -> u128 { match x { BalanceUpdate::Increase(v) | BalanceUpdate::Decrease(v) => *v } }
type Done = Result<Weight, DispatchError>;
fn tell(s: Source, trade: bool, a: AssetId, z: AssetId, x: (u128, u128), liq: (u128, u128), p: (u128, u128)) -> Result<(), DispatchError> {
	let r = if trade { OnActivityHandler::<Test>::on_trade(s, a, z, x.0, x.1, liq.0, liq.1, Ratio::new(p.0, p.1)) } else { OnActivityHandler::<Test>::on_liquidity_changed(s, a, z, x.0, x.1, liq.0, liq.1, Ratio::new(p.0, p.1)) };
	r.map(|_| ()).map_err(|e| e.1)
}
pub struct Switch;
impl OmnipoolHooks<RuntimeOrigin, AccountId, AssetId, u128> for Switch {
	type Error = DispatchError;
	fn on_liquidity_changed(o: RuntimeOrigin, i: Info) -> Done {
		match MODE.with(|m| m.get()) {
			Mode::Off => {}
			Mode::Real => return Real::on_liquidity_changed(o, i),
			Mode::Model => {
				let (x, h) = (size(&i.delta_changes.delta_reserve), size(&i.delta_changes.delta_hub_reserve));
				tell(OMNI, false, i.asset_id, HUB, (x, h), (i.after.reserve, i.after.hub_reserve), (i.after.reserve, i.after.hub_reserve))?;
				note(Seen::Liq { a: i.asset_id, after: (i.after.reserve, i.after.hub_reserve), delta: (x, h) });
				match i.delta_changes.delta_reserve {
					BalanceUpdate::Increase(_) => { Breaker::ensure_add_liquidity_limit(o, i.asset_id, i.before.reserve, x)?; }
					BalanceUpdate::Decrease(_) => if !i.safe_withdrawal { Breaker::ensure_remove_liquidity_limit(o, i.asset_id, i.before.reserve, x)?; },
				}
			}
		}
		Ok(Weight::zero())
	}
	fn on_trade(o: RuntimeOrigin, i: Info, z: Info) -> Done {
		match MODE.with(|m| m.get()) {
			Mode::Off => {}
			Mode::Real => return Real::on_trade(o, i, z),
			Mode::Model => {
				let f = |i: &Info| ((size(&i.delta_changes.delta_reserve), size(&i.delta_changes.delta_hub_reserve)), (i.after.reserve, i.after.hub_reserve));
				let (x, r) = f(&i);
				tell(OMNI, true, i.asset_id, HUB, x, r, r)?;
				note(Seen::Swap { a: i.asset_id, before: i.before.reserve, after: r, x, sold: true });
				let (y, s) = f(&z);
				tell(OMNI, true, HUB, z.asset_id, (y.1, y.0), (s.1, s.0), (s.1, s.0))?;
				note(Seen::Swap { a: z.asset_id, before: z.before.reserve, after: s, x: y, sold: false });
				Breaker::ensure_pool_state_change_limit(i.asset_id, i.before.reserve, x.0, z.asset_id, z.before.reserve, y.0)?;
			}
		}
		Ok(Weight::zero())
	}
	fn on_hub_asset_trade(o: RuntimeOrigin, z: Info) -> Done {
		match MODE.with(|m| m.get()) {
			Mode::Off => {}
			Mode::Real => return Real::on_hub_asset_trade(o, z),
			Mode::Model => {
				let (y, h, s) = (size(&z.delta_changes.delta_reserve), size(&z.delta_changes.delta_hub_reserve), (z.after.reserve, z.after.hub_reserve));
				tell(OMNI, true, HUB, z.asset_id, (h, y), (s.1, s.0), (s.1, s.0))?;
				note(Seen::Swap { a: z.asset_id, before: z.before.reserve, after: s, x: (y, h), sold: false });
				Breaker::ensure_pool_state_change_limit(HUB, 0, 0, z.asset_id, z.before.reserve, y)?;
			}
		}
		Ok(Weight::zero())
	}
	fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
	fn on_trade_weight() -> Weight { Weight::zero() }
	fn on_trade_fee(from: AccountId, trader: AccountId, a: AssetId, x: u128) -> Result<u128, DispatchError> {
		match MODE.with(|m| m.get()) {
			Mode::Off => Ok(0),
			Mode::Real => Real::on_trade_fee(from, trader, a, x),
			Mode::Model => {
				let mut used = 0;
				if a != HUB && a != HDX { used = Referrals::process_trade_fee(from, trader, a, x)?; }
				else if a == HDX { used = Staking::process_trade_fee(from, a, x)?; }
				note(Seen::Fee { a, x, used });
				Ok(used)
			}
		}
	}
}
type RealStable = StableswapHooksAdapter<Test>;
fn stable(p: AssetId, s: &PoolState<AssetId>, trade: bool) -> DispatchResult {
	for i in 0..s.assets.len() {
		let shares = if trade { 0 } else { s.issuance_before.max(s.issuance_after) - s.issuance_before.min(s.issuance_after) };
		tell(STABLE, trade, s.assets[i], p, (s.delta[i], shares), (s.after[i], s.issuance_after), s.share_prices[i])?;
		note(Seen::Stable { a: s.assets[i], after: s.after[i], delta: s.delta[i], shares, trade });
	}
	Ok(())
}
impl StableswapHooks<AssetId> for Switch {
	fn on_liquidity_changed(p: AssetId, s: PoolState<AssetId>) -> DispatchResult { match MODE.with(|m| m.get()) { Mode::Off => Ok(()), Mode::Real => RealStable::on_liquidity_changed(p, s), Mode::Model => stable(p, &s, false) } }
	fn on_trade(p: AssetId, i: AssetId, o: AssetId, s: PoolState<AssetId>) -> DispatchResult { match MODE.with(|m| m.get()) { Mode::Off => Ok(()), Mode::Real => RealStable::on_trade(p, i, o, s), Mode::Model => stable(p, &s, true) } }
	fn on_liquidity_changed_weight(_: usize) -> Weight { Weight::zero() }
	fn on_trade_weight(_: usize) -> Weight { Weight::zero() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Add { who: u8, a: AssetId, x: A },
	Remove { pos: u8, x: A },
	Sell { who: u8, a: AssetId, b: AssetId, x: A },
	Buy { who: u8, a: AssetId, b: AssetId, x: A },
	State { a: AssetId, bits: u8 },
	TradeLimit { a: AssetId, x: u32 },
	LiqLimit { a: AssetId, x: Option<u32>, add: bool },
	Link { who: u8 },
	Stake,
	Price { a: AssetId, p: Option<(u128, u128)> },
	Next(u8),
	SAdd { who: u8, x: Vec<(u8, A)> },
	SRemove { who: u8, a: u8, x: A },
	SSell { who: u8, a: u8, b: u8, x: A },
	SBuy { who: u8, a: u8, b: u8, x: A },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, start: Vec<(u128, u128)>, stable: u128, amp: u16, fee: u32, ops: Vec<Op> }
type State = BTreeMap<Vec<u8>, Vec<u8>>;
fn seen<R>(m: Mode, f: impl FnOnce() -> Result<R, DispatchError>) -> (Result<R, DispatchError>, Vec<RuntimeEvent>, State) {
	MODE.with(|x| x.set(m));
	with_transaction_unchecked(|| { System::reset_events(); let r = with_storage_layer(f); let e = take_events!(Test); let s = state(); TransactionOutcome::Rollback((r, e, s)) })
}
fn diff_state(a: &State, z: &State) -> String { a.keys().chain(z.keys()).filter(|k| a.get(*k) != z.get(*k)).map(|k| format!("{:02x?}.. ", &k[..k.len().min(40)])).take(4).collect() }
fn ra(a: AssetId) -> (u128, u128) { (Tokens::free_balance(a, &me()), Omnipool::load_asset_state(a).map_or(0, |s| s.hub_reserve)) }
/// what happened to a pair in this block
#[derive(Clone, Debug, Default)]
struct Acc { price: (u128, u128), liq: (u128, u128), a: (u128, u128), h: (u128, u128) }
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg.clone());
	PRICES.with(|p| p.borrow_mut().clear());
	MODE.with(|x| x.set(Mode::Off));
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut bal = vec![];
	for i in 1..=4u8 { for a in [0u32, 1, 2, 3, 4, 10, 11, 12] { bal.push((w(i), a, 1u128 << 98)); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		let mut pos: Vec<(u32, u8)> = vec![];
		for (i, (x, h)) in c.start.iter().enumerate() {
			let a = TOKENS[i];
			<Tokens as MultiCurrency<AccountId>>::deposit(a, &me(), *x).map_err(|e| format!("start {e:?}"))?;
			let p = FixedU128::from_inner(md(*h, 1_000_000_000_000_000_000, *x).unwrap_or(1).max(1));
			let id = Omnipool::next_position_id();
			if Omnipool::add_token(RawOrigin::Root.into(), a, p, Permill::from_percent(100), w(1 + i as u8)).is_err() { return Ok(()) }
			pos.push((id, 1 + i as u8));
		}
		<Stable as StableCreate>::create(c.amp, c.fee)?;
		Stable::add_liquidity(sg(1), POOL, POOL_ASSETS.iter().map(|a| AssetAmount::new(*a, scale(*a, c.stable))).collect()).map_err(|e| format!("stable pool: {e:?}"))?;
		let supply: Vec<(AssetId, u128)> = [0u32, 2, 3, 4, 10, 11, 12].iter().map(|a| (*a, <Tokens as MultiCurrency<AccountId>>::total_issuance(*a))).collect();
		let mut acc: BTreeMap<(Source, AssetId), Acc> = BTreeMap::new();
		// trades of the block: first reserve, in, out
		let mut vol: BTreeMap<AssetId, (u128, u128, u128)> = BTreeMap::new();
		let mut limit: BTreeMap<AssetId, u32> = BTreeMap::new();
		let mut changed = std::collections::BTreeSet::new();
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let sr = |a: u8| Tokens::free_balance(POOL_ASSETS[a as usize % 3], &w(POOL as u8));
			let sa = |a: u8| POOL_ASSETS[a as usize % 3];
			let act = || -> Result<(), DispatchError> { match o {
				Op::Add { who, a, x } => Omnipool::add_liquidity(sg(*who), *a, x.of(ra(*a).0)),
				Op::Remove { pos: k, x } => { let (id, who) = pos[*k as usize % pos.len()]; Omnipool::remove_liquidity(sg(who), id, x.of(Omnipool::positions(id).map_or(0, |p| p.shares))) }
				Op::Sell { who, a, b, x } => Omnipool::sell(sg(*who), *a, *b, x.of(if *a == HUB { ra(*b).1 } else { ra(*a).0 }), 0),
				Op::Buy { who, a, b, x } => Omnipool::buy(sg(*who), *b, *a, x.of(ra(*b).0), u128::MAX),
				Op::SAdd { who, x } => Stable::add_liquidity(sg(*who), POOL, x.iter().map(|(a, x)| AssetAmount::new(sa(*a), x.of(sr(*a)))).collect()),
				Op::SRemove { who, a, x } => Stable::remove_liquidity_one_asset(sg(*who), POOL, sa(*a), x.of(Tokens::free_balance(POOL, &w(*who))), 0),
				Op::SSell { who, a, b, x } => Stable::sell(sg(*who), POOL, sa(*a), sa(*b), x.of(sr(*a)), 0),
				Op::SBuy { who, a, b, x } => Stable::buy(sg(*who), POOL, sa(*b), sa(*a), x.of(sr(*b)), u128::MAX),
				_ => Ok(()),
			} };
			match o {
				Op::State { a, bits } => { let _ = Omnipool::set_asset_tradable_state(RawOrigin::Root.into(), *a, pallet_omnipool::types::Tradability::from_bits_truncate(*bits)); continue }
				Op::TradeLimit { a, x } => { if Breaker::set_trade_volume_limit(RawOrigin::Root.into(), *a, (*x, 1_000_000)).is_ok() { limit.insert(*a, *x); changed.insert(*a); } continue }
				Op::LiqLimit { a, x, add } => { let l = x.map(|x| (x, 1_000_000)); let _ = if *add { Breaker::set_add_liquidity_limit(RawOrigin::Root.into(), *a, l) } else { Breaker::set_remove_liquidity_limit(RawOrigin::Root.into(), *a, l) }; continue }
				Op::Link { who } => { let _ = Referrals::register_code(sg(1), b"REFER".to_vec().try_into().unwrap()); let _ = Referrals::link_code(sg(*who), b"REFER".to_vec().try_into().unwrap()); continue }
				Op::Stake => { let pot: AccountId = Staking::pot_account_id(); let _ = Tokens::transfer(sg(3), pot, HDX, 1); let _ = Staking::initialize_staking(RawOrigin::Root.into()); continue }
				Op::Price { a, p } => { PRICES.with(|t| match p { Some(p) => { t.borrow_mut().insert(*a, *p); } None => { t.borrow_mut().remove(a); } }); continue }
				Op::Next(n) => {
					let n = (*n).max(1);
					for k in 0..n {
						let t = System::block_number();
						Oracle::on_finalize(t);
						Breaker::on_finalize(t);
						System::set_block_number(t + 1);
						Oracle::on_initialize(t + 1);
						Breaker::on_initialize(t + 1);
						if k > 0 { acc.clear(); }
						if k == 0 {
							// the oracle shows the block just finished
							for ((s, a), e) in &acc {
								let hub = if *s == OMNI { HUB } else { POOL };
								let (p, _) = Oracle::get_price(*a, hub, OraclePeriod::LastBlock, *s).map_err(|e| format!("{}: no price of {a}: {e:?}", what()))?;
								must!(b(p.n) * b(e.price.1) == b(p.d) * b(e.price.0), "{}: price of {a} {}/{}, the pool ended at {:?}", what(), p.n, p.d, e.price);
								let g = Oracle::get_entry(*a, hub, OraclePeriod::LastBlock, *s).map_err(|e| format!("{e:?}"))?;
								ensure_eq!((g.liquidity.a, g.liquidity.b), e.liq, "{}: liquidity of {a}", what());
								ensure_eq!((g.volume.a_in, g.volume.a_out, g.volume.b_in, g.volume.b_out), (e.a.0, e.a.1, e.h.0, e.h.1), "{}: volumes of {a}", what());
								if *s == OMNI {
									let v = Volumes::asset_volume(*a).ok_or_else(|| format!("{}: no volume of {a}", what()))?;
									ensure_eq!((v.amount_in(), v.amount_out(), Volumes::asset_liquidity(*a)), (e.a.0, e.a.1, Some(e.liq.0)), "{}: volume of {a} as the fees see it", what());
									m.label("oracle entry of the block");
								} else { m.label("oracle entry of the stable pool"); }
							}
						}
					}
					acc.clear(); vol.clear(); changed.clear();
					continue
				}
				_ => {}
			}
			let (off, _, _) = seen(Mode::Off, act);
			SEEN.with(|s| s.borrow_mut().clear());
			let (want, events, after) = seen(Mode::Model, act);
			let notes = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
			MODE.with(|x| x.set(Mode::Real));
			System::reset_events();
			let next = Omnipool::next_position_id();
			let got = no_panic(|| with_storage_layer(act))?;
			let ev = take_events!(Test);
			ensure_eq!(got, want, "{}: outcome", what());
			if let (Err(_), Ok(_)) = (&off, &got) { return Err(format!("{}: refused without the hooks only", what())) }
			if got.is_err() { m.label(if off.is_ok() { "refused by the hooks" } else { "refused" }); continue }
			if state() != after { return Err(format!("{}: storage differs from what the pool's report asks for: {}", what(), diff_state(&after, &state()))) }
			ensure_eq!(ev, events, "{}: events", what());
			if let Op::Add { who, .. } = o { pos.push((next, *who)); }
			// what the oracle and the breaker have to know at the end of the block
			for s in &notes { match s {
				Seen::Liq { a, after, .. } => { let e = acc.entry((OMNI, *a)).or_default(); e.price = *after; e.liq = *after; }
				Seen::Swap { a, before, after, x, sold } => {
					let e = acc.entry((OMNI, *a)).or_default();
					e.price = *after; e.liq = *after;
					if *sold { e.a.0 += x.0; e.h.1 += x.1; } else { e.a.1 += x.0; e.h.0 += x.1; }
					let v = vol.entry(*a).or_insert((*before, 0, 0));
					if *sold { v.1 += x.0 } else { v.2 += x.0 }
					if !changed.contains(a) {
						let l = md(v.0, limit.get(a).copied().unwrap_or(c.cfg.trade) as u128, 1_000_000).unwrap();
						must!(v.1.abs_diff(v.2) <= l, "{}: {a} traded in {} and out {} in this block, only {l} net allowed", what(), v.1, v.2);
						if v.1.abs_diff(v.2) * 2 > l { m.label("close to the trade limit"); }
					}
					m.nontrivial();
					m.label(if *sold { "sold" } else { "bought" });
				}
				Seen::Fee { a, x, used } => { must!(used <= x, "{}: {used} taken of a fee of {x}", what()); m.label(if *a == HDX { if *used > 0 { "fee staked" } else { "native fee left" } } else if *used > 0 { "fee to referrals" } else { "fee left" }); }
				Seen::Stable { a, after, delta, shares, trade } => {
					let r: Vec<AssetReserve> = POOL_ASSETS.iter().map(|a| AssetReserve::new(Tokens::free_balance(*a, &w(POOL as u8)), <Reg as hydradx_traits::registry::Inspect>::decimals(*a).unwrap())).collect();
					let issued = <Tokens as MultiCurrency<AccountId>>::total_issuance(POOL);
					let k = POOL_ASSETS.iter().position(|z| z == a).unwrap();
					ensure_eq!(r[k].amount, *after, "{}: reserve of {a} after", what());
					if let Some(p) = calculate_share_prices::<{ hydra_dx_math::stableswap::MAX_D_ITERATIONS }>(&r, c.amp as u128, issued) {
						let e = acc.entry((STABLE, *a)).or_default();
						e.price = p[k]; e.liq = (*after, issued);
						let _ = (delta, shares, trade);
					}
					m.nontrivial();
					m.label("stable pool");
				}
			} }
			if matches!(o, Op::SSell { .. } | Op::SBuy { .. } | Op::SAdd { .. } | Op::SRemove { .. }) {
				// volumes of the stable pool follow the oracle's rule: a trade counts what came in as in, and the share token not at all
				let (mut ins, mut outs) = (BTreeMap::new(), BTreeMap::new());
				for s in &notes { if let Seen::Stable { a, delta, trade: true, .. } = s { ins.insert(*a, *delta); outs.insert(*a, 0u128); } }
				for (a, x) in ins { acc.get_mut(&(STABLE, a)).map(|e| { e.a.0 += x; }); }
				let _ = outs;
			}
			for (a, x) in &supply { ensure_eq!(<Tokens as MultiCurrency<AccountId>>::total_issuance(*a), *x, "{}: issuance of {a}", what()); }
			let hub: u128 = TOKENS.iter().map(|a| ra(*a).1).sum();
			ensure_eq!(Tokens::free_balance(HUB, &me()), hub, "{}: hub asset in the pool", what());
		}
		Ok(())
	})
}
fn scale(a: AssetId, x: u128) -> u128 { match a { 10 => (x / 1_000_000_000_000).max(2000), 11 => (x / 1_000_000).max(2000), _ => x } }
trait StableCreate { fn create(amp: u16, fee: u32) -> Result<(), String>; }
impl StableCreate for Stable { fn create(amp: u16, fee: u32) -> Result<(), String> { Stable::create_pool(RawOrigin::Root.into(), POOL, POOL_ASSETS.to_vec().try_into().unwrap(), amp, Permill::from_parts(fee)).map_err(|e| format!("create {e:?}")) } }

// ---- C52: what others read
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op2 { Trade { src: bool, a: AssetId, z: AssetId, x: (u128, u128), liq: (u128, u128), p: (u128, u128) }, Next(u8), Relay(Option<(u32, Vec<u8>)>), Freeze { who: u8, coll: u8 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case2 { bonds: Vec<(u8, u64)>, kinds: Vec<u8>, ops: Vec<Op2> }
const REG: [AssetId; 5] = [0, 1, 2, 3, 4];
fn run2(c: &Case2, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = Cfg::default());
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	fresh(st, || {
		System::set_block_number(1);
		cumulus_pallet_parachain_system::set_validation_data(None);
		let mut relay: Option<(u32, Vec<u8>)> = None;
		for (i, a) in REG.iter().enumerate() {
			if *a == 4 { continue } // not registered
			let k = [AssetType::Token, AssetType::StableSwap, AssetType::XYK, AssetType::External][c.kinds[i] as usize % 4];
			let r = Registry::register(RawOrigin::Root.into(), Some(*a), if c.kinds[i] & 8 == 8 { Some(vec![b'A' + i as u8; 9].try_into().unwrap()) } else { None }, k, Some(1), None, None, None, None, true);
			if *a != 0 { r.map_err(|e| format!("register {a}: {e:?}"))?; }
			<Tokens as MultiCurrency<AccountId>>::deposit(*a, &w(1), 1 << 90).map_err(|e| format!("{e:?}"))?;
		}
		// bonds of them: id and what they stand for
		let mut bonds: Vec<(AssetId, AssetId)> = vec![];
		for (a, t) in &c.bonds {
			let a = REG[*a as usize % 4];
			if Bonds::issue(sg(1), a, 1 << 40, 1000 + *t).is_ok() {
				let id = Bonds::bond_id((a, 1000 + *t)).ok_or("bond not stored")?;
				bonds.push((id, a));
			}
		}
		for k in 0..2u128 { Uniques::create(sg(1 + k as u8), k, w(1 + k as u8)).map_err(|e| format!("collection: {e:?}"))?; }
		let mut frozen = [false; 2];
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			match o {
				Op2::Trade { src, a, z, x, liq, p } => { if a != z { let _ = tell(if *src { OMNI } else { STABLE }, true, *a, *z, *x, *liq, *p); } }
				Op2::Next(n) => for _ in 0..*n { let t = System::block_number(); Oracle::on_finalize(t); System::set_block_number(t + 1); Oracle::on_initialize(t + 1); },
				Op2::Relay(d) => { relay = d.clone(); cumulus_pallet_parachain_system::set_validation_data(d.clone().map(|(n, h)| cumulus_primitives_core::PersistedValidationData { parent_head: cumulus_primitives_core::relay_chain::HeadData(h), relay_parent_number: n, ..Default::default() })); }
				Op2::Freeze { who, coll } => {
					use pallet_staking::traits::Freeze;
					let k = *coll as usize % 3;
					let got = no_panic(|| atomic(what, || FreezableNFT::<Test, RuntimeOrigin>::freeze_collection(w(*who), k as u128)))??;
					let ok = k < 2 && *who == 1 + k as u8;
					must!(got.is_ok() == ok, "{}: {got:?}", what());
					if ok { frozen[k] = true; m.label("frozen"); }
				}
			}
			for k in 0..2u128 { ensure_eq!(pallet_uniques::Class::<Test>::get(k).map(|d| d.is_frozen), Some(frozen[k as usize]), "{}: collection {k} frozen", what()); }
			ensure_eq!(RelayChainBlockNumberProvider::<Test>::current_block_number(), relay.as_ref().map_or(0, |r| r.0), "{}: relay chain block", what());
			ensure_eq!(<RelayChainBlockHashProviderAdapter<Test> as RelayChainBlockHashProvider>::parent_hash(), relay.as_ref().map(|r| sp_io::hashing::blake2_256(&r.1).into()), "{}: relay chain hash", what());
			// prices and volumes
			for a in REG {
				for z in REG {
					let want = Oracle::get_price(a, z, OraclePeriod::Short, OMNI).map(|p| p.0).ok();
					let got = <EmaOraclePriceAdapter<Short, Test> as ExternalPriceProvider<AssetId, Ratio>>::get_price(a, z);
					ensure_eq!(got.as_ref().ok(), want.as_ref(), "{}: price of {a} in {z}", what());
					if let Err(e) = got { ensure_eq!(e, pallet_omnipool::Error::<Test>::InvalidOraclePrice.into(), "{}: reason", what()) }
				}
				let e = Oracle::get_entry(a, HUB, OraclePeriod::LastBlock, OMNI).ok();
				ensure_eq!(Volumes::asset_volume(a).map(|v| (v.amount_in(), v.amount_out())), e.as_ref().map(|e| (e.volume.a_in, e.volume.a_out)), "{}: volume of {a}", what());
				ensure_eq!(Volumes::asset_liquidity(a), e.map(|e| e.liquidity.a), "{}: liquidity of {a}", what());
			}
			// adjustment of rewards: the oracle's price of what is paid, or of what the paid bonds stand for
			for (paid, stands) in REG.iter().map(|a| (*a, if *a == 4 { None } else { Some(*a) })).chain(bonds.iter().map(|x| (x.0, Some(x.1)))) {
				for inc in REG {
					let g = pallet_liquidity_mining::GlobalFarmData::<Test, ()>::new(1, 1, paid, sp_runtime::Perquintill::from_percent(1), 10, 1, w(1), inc, 1, 1, FixedU128::from(1));
					let got = no_panic(|| Adjust::get(&g))?;
					let want = stands.and_then(|s| Oracle::get_price(s, inc, OraclePeriod::TenMinutes, OMNI).ok()).and_then(|(p, _)| if p.d == 0 { None } else { quo(b(p.n) * b(1_000_000_000_000_000_000), b(p.d)) });
					match (&got, want) { (Ok(g), Some(v)) => { must!(g.into_inner().abs_diff(v) <= 1, "{}: adjustment of {paid} for {inc}: {g:?}, must be {v}", what()); m.nontrivial(); m.label(if paid > 100 { "bond" } else { "token" }); } (Err(_), None) => {} (g, v) => return Err(format!("{}: adjustment of {paid} for {inc}: {g:?}, must be {v:?}", what())) }
				}
			}
		}
		Ok(())
	})
}

fn main() {
	let id = std::env::args().nth(1).expect("property");
	let mut c = Ctx::new(&id);
	c.assume("token ledger, system pallet and the currency of the pools are stand-ins; the pools, oracle, breaker, referrals, staking, dynamic fees, registry, bonds and adapters are the real ones");
	if id == "C51" {
		let tok = || prop::sample::select(TOKENS.to_vec());
		let two = || (0usize..5, 0usize..4).prop_map(|(i, j)| { let a = if i == 4 { HUB } else { TOKENS[i] }; let b = TOKENS[if i == j { (j + 1) % 4 } else { j }]; (a, b) });
		let who = || 1u8..=4;
		let ppm = || prop_oneof![3 => 100_000u32..1_000_000, 2 => 1u32..50_000];
		let s3 = || (0u8..3, 0u8..2).prop_map(|(a, d)| (a, (a + d + 1) % 3));
		let op = move || prop_oneof![
			4 => (who(), tok(), small_amt()).prop_map(|(who, a, x)| Op::Add { who, a, x }),
			3 => (any::<u8>(), amt()).prop_map(|(pos, x)| Op::Remove { pos, x }),
			9 => (who(), two(), small_amt()).prop_map(|(who, (a, b), x)| Op::Sell { who, a, b, x }),
			9 => (who(), two(), small_amt()).prop_map(|(who, (a, b), x)| Op::Buy { who, a, b, x }),
			1 => (tok(), prop_oneof![2 => Just(15u8), 1 => Just(8u8), 1 => 0u8..16]).prop_map(|(a, bits)| Op::State { a, bits }),
			1 => (tok(), 1u32..1_000_000).prop_map(|(a, x)| Op::TradeLimit { a, x }),
			1 => (tok(), prop::option::weighted(0.8, ppm()), any::<bool>()).prop_map(|(a, x, add)| Op::LiqLimit { a, x, add }),
			1 => who().prop_map(|who| Op::Link { who }),
			1 => Just(Op::Stake),
			2 => (tok(), prop::option::weighted(0.85, (mag(1, 1 << 40), mag(1, 1 << 40)))).prop_map(|(a, p)| Op::Price { a, p }),
			3 => (1u8..4).prop_map(Op::Next),
			1 => (who(), proptest::collection::vec((0u8..3, small_amt()), 1..4)).prop_map(|(who, x)| Op::SAdd { who, x }),
			1 => (who(), 0u8..3, small_amt()).prop_map(|(who, a, x)| Op::SRemove { who, a, x }),
			2 => (who(), s3(), small_amt()).prop_map(|(who, (a, b), x)| Op::SSell { who, a, b, x }),
			2 => (who(), s3(), small_amt()).prop_map(|(who, (a, b), x)| Op::SBuy { who, a, b, x }),
		];
		let tab = || (0u32..500_000, 0u32..300_000, 0u32..200_000);
		let conf = move || (ppm(), prop::option::weighted(0.8, ppm()), prop::option::weighted(0.8, ppm()), (0u32..100_000, 0u32..50_000), any::<u8>(), proptest::collection::vec(tab(), 2), any::<bool>(), 0u32..10_000).prop_map(|(trade, add, remove, fees, decay, table, external, min_wd)| Cfg { trade, add, remove, fees, decay, table, external, min_wd });
		c.check("hooks", "histories of omnipool and stable pool calls with the real hooks against the same calls whose reports are passed on by a model; non-trivial: a trade", 8_000, 250_000, move || (conf(), proptest::collection::vec((mag(1 << 45, 1 << 75), mag(1 << 45, 1 << 75)), 4), mag(1 << 66, 1 << 90), 2u16..1000, 0u32..10_000, proptest::collection::vec(op(), 1..24)).prop_map(|(cfg, start, stable, amp, fee, ops)| Case { cfg, start, stable, amp, fee, ops }), run);
	} else {
		let two = || (mag(1, 1 << 90), mag(1, 1 << 90));
		let op = move || prop_oneof![
			6 => (prop::bool::weighted(0.85), 0u32..5, 0u32..5, two(), two(), prop_oneof![5 => two().boxed(), 1 => (mag(0, u128::MAX), mag(1, u128::MAX)).boxed()]).prop_map(|(src, a, z, x, liq, p)| Op2::Trade { src, a, z, x, liq, p }),
			4 => (1u8..4).prop_map(Op2::Next),
			1 => prop::option::weighted(0.8, (any::<u32>(), proptest::collection::vec(any::<u8>(), 0..40))).prop_map(Op2::Relay),
			1 => (1u8..4, 0u8..3).prop_map(|(who, coll)| Op2::Freeze { who, coll }),
		];
		c.check("readers", "histories of oracle activity, bonds, relay chain data and freezing, all answers asked after every step; non-trivial: a reward was adjusted", 6_000, 200_000, move || (proptest::collection::vec((0u8..4, 0u64..1 << 40), 0..4), proptest::collection::vec(0u8..16, 5), proptest::collection::vec(op(), 1..16)).prop_map(|(bonds, kinds, ops)| Case2 { bonds, kinds, ops }), run2);
	}
	std::process::exit(c.finish());
}
