use frame_support::traits::tokens::nonfungibles::{Inspect as _, Transfer as _};
use frame_support::PalletId;
use frame_system::RawOrigin;
use hydradx_traits::oracle::{AggregatedPriceOracle, OraclePeriod, Source};
use hydra_dx_math::ema::EmaPrice;
use kit::fakes::{NftOf, Whitelist};
use kit::lm::{Acc, Dep, Ev, Farm, Lm, Settings, Yield};
use kit::*;
use codec::{Decode, Encode};
use pallet_liquidity_mining::{GlobalFarmData, LoyaltyCurve};
use pallet_omnipool::types::{AssetReserveState, Position, Tradability};
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Omnipool: pallet_omnipool, Farms: pallet_liquidity_mining, Omni: pallet_omnipool_liquidity_mining });
const F: u128 = 1_000_000_000_000_000_000;
const TREASURY: Acc = 99;
const COLL: u128 = 7;
const REWARDS: [AssetId; 4] = [0, 1, 2, 4];
/// the assets of the omnipool, by index
const POOLS: [AssetId; 4] = [10, 1, 2, 11];
const HUB: AssetId = 3;
const POSITIONS: u128 = 1337;
fn ed(a: AssetId) -> u128 { match a { 1 => 1000, 2 => 1_000_000, _ => 1 } }
orml_traits::parameter_type_with_key! { pub Eds: |c: u32| -> u128 { ed(*c) }; }
system_config!(Test, u128, ());
tokens_config!(Test, Eds, Whitelist<u128>, ());
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Cfg { min_total: u128, min_periods: u64, max_entries: u32, max_farms: u32, treasury: u128 }
#[derive(Default)]
struct World { cfg: Cfg, rate: BTreeMap<AssetId, Option<(u128, u128)>>, price: BTreeMap<u32, Option<u128>> }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
parameter_types! {
	pub const Pid: PalletId = PalletId(*b"farms/pt");
	pub const XPid: PalletId = PalletId(*b"xyklm/pt");
	pub const Treasury: Acc = TREASURY;
	pub MinTotal: u128 = world(|w| w.cfg.min_total);
	pub MinPeriods: u64 = world(|w| w.cfg.min_periods);
	pub MaxEntries: u32 = world(|w| w.cfg.max_entries);
	pub MaxFarms: u32 = world(|w| w.cfg.max_farms);
	pub const Coll: u128 = COLL;
}
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(a: AssetId) -> bool { a == 0 || a == 2 }
	fn exists(a: AssetId) -> bool { a < 4 || a == 10 || a == 11 }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: AssetId) -> Option<u128> { if a < 4 { Some(ed(a)) } else { None } }
}
impl orml_traits::GetByKey<AssetId, u128> for Reg { fn get(a: &AssetId) -> u128 { ed(*a) } }
pub struct Price;
impl hydradx_traits::liquidity_mining::PriceAdjustment<GlobalFarmData<Test>> for Price {
	type Error = DispatchError;
	type PriceAdjustment = FixedU128;
	fn get(f: &GlobalFarmData<Test>) -> Result<FixedU128, DispatchError> {
		match world(|w| w.price.get(&f.id).copied()) { None => pallet_liquidity_mining::DefaultPriceAdjustment::get(f), Some(None) => Err("no price".into()), Some(Some(p)) => Ok(FixedU128::from_inner(p)) }
	}
}
impl pallet_liquidity_mining::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type MultiCurrency = Tokens;
	type PalletId = Pid;
	type TreasuryAccountId = Treasury;
	type MinTotalFarmRewards = MinTotal;
	type MinPlannedYieldingPeriods = MinPeriods;
	type BlockNumberProvider = System;
	type AmmPoolId = AssetId;
	type MaxFarmEntriesPerDeposit = MaxEntries;
	type MaxYieldFarmsPerGlobalFarm = MaxFarms;
	type AssetRegistry = Reg;
	type NonDustableWhitelistHandler = Whitelist<Acc>;
	type PriceAdjustment = Price;
}
fn value(a: AssetId, x: u128) -> Option<u128> { let (n, d) = world(|w| w.rate.get(&a).copied().flatten())?; md(x, n, d.max(1)) }
pub struct Oracle;
impl AggregatedPriceOracle<AssetId, u64, EmaPrice> for Oracle {
	type Error = pallet_ema_oracle::OracleError;
	fn get_price(h: AssetId, a: AssetId, p: OraclePeriod, s: Source) -> Result<(EmaPrice, u64), Self::Error> {
		if h != HUB || p != OraclePeriod::TenMinutes || s != *b"omnipool" { return Err(pallet_ema_oracle::OracleError::SameAsset) }
		world(|w| w.rate.get(&a).copied().flatten()).map(|(n, d)| (EmaPrice::new(n, d), 5)).ok_or(pallet_ema_oracle::OracleError::NotPresent)
	}
	fn get_price_weight() -> frame_support::weights::Weight { Default::default() }
}
pub struct NoPrice;
impl pallet_omnipool::traits::ExternalPriceProvider<AssetId, EmaPrice> for NoPrice {
	type Error = DispatchError;
	fn get_price(_: AssetId, _: AssetId) -> Result<EmaPrice, DispatchError> { Err("none".into()) }
	fn get_price_weight() -> frame_support::weights::Weight { Default::default() }
}
pub struct NoFee;
impl orml_traits::GetByKey<AssetId, (Permill, Permill)> for NoFee { fn get(_: &AssetId) -> (Permill, Permill) { Default::default() } }
impl pallet_omnipool::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Currency = Tokens;
	type AuthorityOrigin = frame_system::EnsureRoot<Acc>;
	type TechnicalOrigin = frame_system::EnsureRoot<Acc>;
	type AssetRegistry = Reg;
	type HdxAssetId = ConstU32<0>;
	type HubAssetId = ConstU32<HUB>;
	type Fee = NoFee;
	type MinWithdrawalFee = ();
	type MinimumTradingLimit = ConstU128<1>;
	type MinimumPoolLiquidity = ConstU128<1>;
	type MaxInRatio = ConstU128<3>;
	type MaxOutRatio = ConstU128<3>;
	type PositionItemId = u128;
	type CollectionId = u128;
	type NFTCollectionId = ConstU128<POSITIONS>;
	type NFTHandler = Items;
	type WeightInfo = ();
	type OmnipoolHooks = ();
	type PriceBarrier = ();
	type ExternalPriceOracle = NoPrice;
}
type Items = NftOf<Acc, u128, u128>;
parameter_types! { pub const Src: Source = *b"omnipool"; pub const Period: OraclePeriod = OraclePeriod::TenMinutes; }
impl pallet_omnipool_liquidity_mining::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Tokens;
	type CreateOrigin = frame_system::EnsureRoot<Acc>;
	type PalletId = XPid;
	type NFTCollectionId = Coll;
	type NFTHandler = Items;
	type LiquidityMiningHandler = Farms;
	type OracleSource = Src;
	type OraclePeriod = Period;
	type PriceOracle = Oracle;
	type WeightInfo = ();
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	CreateFarm { root: bool, owner: Acc, total: A, planned: u64, bpp: u64, cur: AssetId, ypp: u64, min: u128, price: u128 },
	EndFarm { who: Option<Acc>, g: u8 },
	CreateYield { who: Option<Acc>, g: u8, a: AssetId, mult: u128, curve: Option<(u128, u32)> },
	SetMult { who: Option<Acc>, y: u8, mult: u128 },
	Stop { who: Option<Acc>, y: u8 },
	Resume { who: Option<Acc>, y: u8, mult: u128 },
	EndYield { who: Option<Acc>, y: u8 },
	Provide { who: Acc, a: AssetId, amount: u128, shares: u128 },
	Deposit { who: Option<Acc>, y: u8, p: u8 },
	Redeposit { who: Option<Acc>, d: u8, y: u8 },
	Claim { who: Option<Acc>, d: u8, e: u8 },
	Withdraw { who: Option<Acc>, d: u8, e: u8 },
	Give { d: u8, to: Acc },
	GivePosition { p: u8, to: Acc },
	Sacrifice { who: Option<Acc>, p: u8 },
	Blocks { n: u64 },
	Value { a: AssetId, r: Option<(u128, u128)> },
	Oracle { g: u8, p: Option<Option<u128>> },
	Listed { a: AssetId, on: bool },
	Pay { from: Acc, to: Acc, cur: AssetId, x: A },
	Donate { g: u8, x: A },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn mult() -> BoxedStrategy<u128> { prop_oneof![2 => Just(F), 2 => Just(F / 2), 2 => Just(F / 1000), 1 => Just(F / 1000 - 1), 3 => F / 1000..F * 4, 1 => Just(0u128), 1 => mag(F / 1000, F * 1000)].boxed() }
fn fp() -> BoxedStrategy<u128> { prop_oneof![4 => Just(F), 3 => F / 100..F * 10, 1 => mag(1, F * F), 1 => Just(0u128)].boxed() }
fn who() -> BoxedStrategy<Option<Acc>> { prop::option::weighted(0.08, 1u128..=4).boxed() }
fn asset() -> BoxedStrategy<AssetId> { prop_oneof![8 => prop::sample::select(POOLS.to_vec()), 1 => Just(HUB), 1 => Just(77u32)].boxed() }
fn stake() -> BoxedStrategy<u128> { prop_oneof![1 => 900u128..1100, 8 => mag(1000, 1 << 60), 1 => mag(1, 1 << 110)].boxed() }
fn provide() -> BoxedStrategy<Op> { (1u128..=4, prop_oneof![3 => prop::sample::select(POOLS[..2].to_vec()), 1 => prop::sample::select(POOLS.to_vec())], stake(), stake()).prop_map(|(who, a, amount, shares)| Op::Provide { who, a, amount, shares }).boxed() }
fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		2 => (prop::bool::weighted(0.95), 1u128..=3, prop_oneof![3 => (1u32..200_000).prop_map(A::Part), 1 => amt()], prop_oneof![6 => 1u64..40, 1 => 0u64..2, 1 => any::<u64>()], prop_oneof![6 => 1u64..4, 1 => 0u64..30], prop::sample::select(vec![0u32, 0, 1, 1, 2, 4]), prop_oneof![4 => 1_000_000_000_000_000u64..=500_000_000_000_000_000, 1 => Just(1_000_000_000_000_000_000u64), 1 => 0u64..3], prop_oneof![5 => Just(1000u128), 1 => 998u128..1002, 2 => mag(1000, 1 << 60)], prop_oneof![5 => Just(F), 2 => fp()]).prop_map(|(root, owner, total, planned, bpp, cur, ypp, min, price)| Op::CreateFarm { root, owner, total, planned, bpp, cur, ypp, min, price }),
		2 => (who(), any::<u8>()).prop_map(|(who, g)| Op::EndFarm { who, g }),
		4 => (who(), any::<u8>(), asset(), mult(), prop::option::of((prop_oneof![3 => 0u128..F, 1 => F - 1..=F], prop_oneof![5 => 1u32..50, 1 => Just(0u32), 1 => any::<u32>()]))).prop_map(|(who, g, a, mult, curve)| Op::CreateYield { who, g, a, mult, curve }),
		2 => (who(), any::<u8>(), mult()).prop_map(|(who, y, mult)| Op::SetMult { who, y, mult }),
		2 => (who(), any::<u8>()).prop_map(|(who, y)| Op::Stop { who, y }),
		3 => (who(), any::<u8>(), mult()).prop_map(|(who, y, mult)| Op::Resume { who, y, mult }),
		2 => (who(), any::<u8>()).prop_map(|(who, y)| Op::EndYield { who, y }),
		8 => provide(),
		14 => (who(), any::<u8>(), any::<u8>()).prop_map(|(who, y, p)| Op::Deposit { who, y, p }),
		8 => (who(), any::<u8>(), any::<u8>()).prop_map(|(who, d, y)| Op::Redeposit { who, d, y }),
		12 => (who(), any::<u8>(), any::<u8>()).prop_map(|(who, d, e)| Op::Claim { who, d, e }),
		6 => (who(), any::<u8>(), any::<u8>()).prop_map(|(who, d, e)| Op::Withdraw { who, d, e }),
		1 => (any::<u8>(), 1u128..=4).prop_map(|(d, to)| Op::Give { d, to }),
		1 => (any::<u8>(), 1u128..=4).prop_map(|(p, to)| Op::GivePosition { p, to }),
		1 => (who(), any::<u8>()).prop_map(|(who, p)| Op::Sacrifice { who, p }),
		18 => prop_oneof![5 => 1u64..5, 2 => 1u64..30, 1 => 1u64..5000].prop_map(|n| Op::Blocks { n }),
		2 => (prop::sample::select(POOLS.to_vec()), prop::option::weighted(0.9, prop_oneof![3 => (mag(1000, 1_000_000), 1000u128..100_000), 1 => (mag(1, 1 << 60), prop_oneof![6 => mag(1, 1 << 60), 1 => Just(0u128)])])).prop_map(|(a, r)| Op::Value { a, r }),
		1 => (any::<u8>(), prop::option::of(prop::option::weighted(0.8, fp()))).prop_map(|(g, p)| Op::Oracle { g, p }),
		1 => (prop::sample::select(POOLS.to_vec()), prop::bool::weighted(0.75)).prop_map(|(a, on)| Op::Listed { a, on }),
		1 => (1u128..=4, 1u128..=4, prop::sample::select(vec![0u32, 1, 2]), amt()).prop_map(|(from, to, cur, x)| Op::Pay { from, to, cur, x }),
		1 => (any::<u8>(), (0u32..10_000).prop_map(A::Part)).prop_map(|(g, x)| Op::Donate { g, x }),
	].boxed()
}
/// A start that has running farms and positions, so that histories reach deep states.
fn opening() -> BoxedStrategy<Vec<Op>> {
	let farm = (1u128..=3, 1u32..200_000, 1u64..30, 1u64..4, prop::sample::select(vec![0u32, 0, 1, 2]), 10_000_000_000_000_000u64..=500_000_000_000_000_000).prop_map(|(owner, t, planned, bpp, cur, ypp)| Op::CreateFarm { root: true, owner, total: A::Part(t), planned, bpp, cur, ypp, min: 1000, price: F });
	let yields = proptest::collection::vec((any::<u8>(), prop::sample::select(POOLS[..2].to_vec()), prop_oneof![Just(F), Just(F / 2), F / 1000..F * 4], prop::option::of((0u128..F, 1u32..50))).prop_map(|(g, a, mult, curve)| Op::CreateYield { who: None, g, a, mult, curve }), 1..5);
	(proptest::collection::vec(farm, 1..4), yields, proptest::collection::vec(provide(), 1..6)).prop_map(|(mut f, y, p)| { f.extend(y); f.extend(p); f }).boxed()
}
fn case(n: usize) -> BoxedStrategy<Case> {
	let cfg = (prop_oneof![Just(0u128), mag(1, 1 << 70)], 0u64..3, prop_oneof![1 => Just(1u32), 4 => 2u32..4], prop_oneof![1 => Just(1u32), 5 => 2u32..6], prop_oneof![Just(0u128), Just(1u128 << 60)]).prop_map(|(min_total, min_periods, max_entries, max_farms, treasury)| Cfg { min_total, min_periods, max_entries, max_farms, treasury });
	(cfg, opening(), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, mut ops, more)| { ops.extend(more); Case { cfg, ops } }).boxed()
}
type Model = Lm<AssetId>;
type E = pallet_omnipool_liquidity_mining::Event<Test>;
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn pick<T: Clone>(v: Vec<T>, i: u8) -> Option<T> { if v.is_empty() || i == 255 { None } else { Some(v[i as usize % v.len()].clone()) } }
#[derive(Clone, Debug, PartialEq)]
struct Place { a: AssetId, amount: u128, shares: u128, owner: Acc }
/// omnipool positions, those under deposits, holders of deposits, listed assets
#[derive(Clone, Debug, Default)]
struct Held { places: BTreeMap<u128, Place>, under: BTreeMap<u128, u128>, items: BTreeMap<u128, Acc>, listed: BTreeSet<AssetId>, seq: u128 }
fn list(a: AssetId) { Omnipool::add_asset(a, AssetReserveState::<u128> { reserve: 0, hub_reserve: 1, shares: 1 << 120, protocol_shares: 0, cap: F, tradable: Tradability::default() }.into()).unwrap() }
fn prefix(x: &str) -> Vec<u8> { [sp_io::hashing::twox_128(b"Omni"), sp_io::hashing::twox_128(x.as_bytes())].concat() }
fn run(c: &Case, m: &mut Meter) -> Res {
	world(|w| { *w = World { cfg: c.cfg.clone(), ..Default::default() }; for a in POOLS { w.rate.insert(a, Some((1, 1))); } });
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut pot_seed = b"modl".to_vec();
	pot_seed.extend(*b"farms/pt");
	let pot: Acc = Pid::get().into_account_truncating();
	let me: Acc = XPid::get().into_account_truncating();
	let mut model: Model = Lm::new(Settings { min_total: c.cfg.min_total, min_periods: c.cfg.min_periods, max_entries: c.cfg.max_entries, max_farms: c.cfg.max_farms, treasury: TREASURY, pot, base: pot_seed });
	for a in [0, 1, 2, HUB, 10, 11] { model.l.eds.insert(a, ed(a)); }
	let mut bal = vec![];
	for a in REWARDS { for w in 1..=3u128 { bal.push((w, a, (1u128 << 75) + w)); } if c.cfg.treasury > 0 { bal.push((TREASURY, a, c.cfg.treasury)); } }
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	pallet_liquidity_mining::GenesisConfig::<Test>::default().assimilate_storage(&mut st).unwrap();
	pallet_omnipool_liquidity_mining::GenesisConfig::<Test>::default().assimilate_storage(&mut st).unwrap();
	let mut held = Held::default();
	let assets: Vec<AssetId> = REWARDS.to_vec();
	fresh(st, || {
		System::set_block_number(1);
		for a in &POOLS[..3] { list(*a); held.listed.insert(*a); }
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let sg = |w: Acc| RuntimeOrigin::from(RawOrigin::Signed(w));
			let mut next = model.clone();
			next.ev.clear();
			next.labels.clear();
			next.price = world(|w| w.price.clone());
			let mut nh = held.clone();
			let farms: Vec<u32> = model.farms.keys().copied().collect();
			let yields: Vec<(AssetId, u32, u32)> = model.yields.keys().cloned().collect();
			let running: Vec<(AssetId, u32, u32)> = model.yields.iter().filter(|(_, f)| f.state == kit::lm::State::Active).map(|(k, _)| *k).collect();
			let farm = |g: u8| pick(farms.clone(), g).unwrap_or(77);
			let yld = |y: u8| pick(yields.clone(), y).unwrap_or((POOLS[0], 77, 78));
			let owner = |g: u32| model.farms.get(&g).map_or(1, |f| f.owner);
			let dep = |d: u8| pick(model.deps.keys().copied().collect(), d).unwrap_or(77);
			let place = |p: u8, free: bool| pick(held.places.iter().filter(|x| !free || x.1.owner != me).map(|x| *x.0).collect(), p).unwrap_or(79);
			let holder = |d: u128| held.items.get(&d).copied().unwrap_or(1);
			let ent = |d: u128, e: u8| model.deps.get(&d).and_then(|x| pick(x.entries.clone(), e)).map_or(79, |e| e.y);
			// what the code says, what it must say with its events
			let (got, want): (DispatchResult, Option<Vec<E>>) = match o.clone() {
				Op::CreateFarm { root, owner, total, planned, bpp, cur, ypp, min, price } => {
					let total = total.of(model.l.get(&owner, cur));
					let got = atomic(what, || Omni::create_global_farm(if root { RawOrigin::Root.into() } else { sg(owner) }, total, planned, bpp, cur, owner, Perquintill::from_parts(ypp), min, fx(price)))?;
					let ypp = ypp.min(F as u64);
					let want = (|| {
						if !root { return None }
						let (id, max) = next.create_farm(total, planned, bpp, HUB, cur, owner, ypp, min, price)?;
						Some(vec![E::GlobalFarmCreated { id, owner, total_rewards: total, reward_currency: cur, yield_per_period: Perquintill::from_parts(ypp), planned_yielding_periods: planned, blocks_per_period: bpp, max_reward_per_period: max, min_deposit: min, lrna_price_adjustment: fx(price) }])
					})();
					(got, want)
				}
				Op::EndFarm { who, g } => {
					let g = farm(g);
					let who = who.unwrap_or(owner(g));
					(atomic(what, || Omni::terminate_global_farm(sg(who), g))?, next.end_farm(who, g).map(|(reward_currency, undistributed_rewards, who)| vec![E::GlobalFarmTerminated { global_farm_id: g, who, reward_currency, undistributed_rewards }]))
				}
				Op::CreateYield { who, g, a, mult, curve } => {
					let g = farm(g);
					let who = who.unwrap_or(owner(g));
					let lc = curve.map(|(i, s)| LoyaltyCurve { initial_reward_percentage: fx(i), scale_coef: s });
					let got = atomic(what, || Omni::create_yield_farm(sg(who), g, a, fx(mult), lc.clone()))?;
					let want = if held.listed.contains(&a) { next.create_yield(who, g, mult, curve, a, &[a, HUB]) } else { None };
					(got, want.map(|id| vec![E::YieldFarmCreated { global_farm_id: g, yield_farm_id: id, multiplier: fx(mult), asset_id: a, loyalty_curve: lc }]))
				}
				Op::SetMult { who, y, mult } => {
					let (a, g, _) = yld(y);
					let who = who.unwrap_or(owner(g));
					let got = atomic(what, || Omni::update_yield_farm(sg(who), g, a, fx(mult)))?;
					let want = if held.listed.contains(&a) { next.set_mult(who, g, a, mult) } else { None };
					(got, want.map(|id| vec![E::YieldFarmUpdated { global_farm_id: g, yield_farm_id: id, who, asset_id: a, multiplier: fx(mult) }]))
				}
				Op::Stop { who, y } => {
					let (a, g, _) = yld(y);
					let who = who.unwrap_or(owner(g));
					(atomic(what, || Omni::stop_yield_farm(sg(who), g, a))?, next.stop(who, g, a).map(|id| vec![E::YieldFarmStopped { global_farm_id: g, yield_farm_id: id, who, asset_id: a }]))
				}
				Op::Resume { who, y, mult } => {
					let (a, g, id) = yld(y);
					let who = who.unwrap_or(owner(g));
					let got = atomic(what, || Omni::resume_yield_farm(sg(who), g, id, a, fx(mult)))?;
					let want = if held.listed.contains(&a) { next.resume(who, g, id, a, mult) } else { None };
					(got, want.map(|_| vec![E::YieldFarmResumed { global_farm_id: g, yield_farm_id: id, who, asset_id: a, multiplier: fx(mult) }]))
				}
				Op::EndYield { who, y } => {
					let (a, g, id) = yld(y);
					let who = who.unwrap_or(owner(g));
					(atomic(what, || Omni::terminate_yield_farm(sg(who), g, id, a))?, next.end_yield(who, g, id, a).map(|_| vec![E::YieldFarmTerminated { global_farm_id: g, yield_farm_id: id, who, asset_id: a }]))
				}
				Op::Provide { who, a, amount, shares } => {
					nh.seq += 1;
					Omnipool::set_position(nh.seq, &Position { asset_id: a, amount, shares, price: (1, 1) }).unwrap();
					<Items as frame_support::traits::tokens::nonfungibles::Mutate<Acc>>::mint_into(&POSITIONS, &nh.seq, &who).unwrap();
					nh.places.insert(nh.seq, Place { a, amount, shares, owner: who });
					(Ok(()), Some(vec![]))
				}
				Op::Deposit { who, y, p } => {
					let fit: Vec<u128> = held.places.iter().filter(|(_, x)| x.owner != me && running.iter().any(|k| k.0 == x.a)).map(|x| *x.0).collect();
					let p = if y % 8 > 0 { pick(fit, p).unwrap_or(place(p, true)) } else { place(p, y % 16 > 0) };
					let of = held.places.get(&p).cloned();
					let (_, g, id) = if y % 8 > 0 { pick(running.iter().filter(|k| of.as_ref().map_or(true, |x| x.a == k.0)).copied().collect(), y).unwrap_or(yld(y)) } else { yld(y) };
					let who = who.unwrap_or(of.as_ref().map_or(1, |x| if x.owner == me { 1 } else { x.owner }));
					let got = atomic(what, || Omni::deposit_shares(sg(who), g, id, p))?;
					let want = (|| {
						let of = of.filter(|x| x.owner == who && held.listed.contains(&x.a))?;
						let d = next.deposit(g, id, of.a, of.shares, |_| value(of.a, of.amount))?;
						nh.places.get_mut(&p)?.owner = me;
						nh.under.insert(d, p);
						nh.items.insert(d, who);
						Some(vec![E::SharesDeposited { global_farm_id: g, yield_farm_id: id, deposit_id: d, asset_id: of.a, who, shares_amount: of.shares, position_id: p }])
					})();
					(got, want)
				}
				Op::Redeposit { who, d, y } => {
					let d = dep(d);
					let own = model.deps.get(&d).map_or(0, |x| x.pool);
					// mostly a farm of the deposit's asset it has not entered
					let (_, g, id) = if y % 8 > 0 { pick(running.iter().filter(|k| k.0 == own && model.deps.get(&d).map_or(true, |d| !d.entries.iter().any(|e| e.y == k.2))).copied().collect(), y).unwrap_or(yld(y)) } else { yld(y) };
					let who = who.unwrap_or(holder(d));
					let got = atomic(what, || Omni::redeposit_shares(sg(who), g, id, d))?;
					let want = (|| {
						if held.items.get(&d) != Some(&who) || !held.listed.contains(&own) { return None }
						let p = held.under[&d];
						let of = &held.places[&p];
						next.redeposit(g, id, d, |_, _| value(of.a, of.amount))?;
						Some(vec![E::SharesRedeposited { global_farm_id: g, yield_farm_id: id, deposit_id: d, asset_id: own, who, shares_amount: of.shares, position_id: p }])
					})();
					(got, want)
				}
				Op::Claim { who, d, e } => {
					let d = dep(d);
					let id = ent(d, e);
					let who = who.unwrap_or(holder(d));
					let got = atomic(what, || Omni::claim_rewards(sg(who), d, id))?;
					let want = (|| {
						if held.items.get(&d) != Some(&who) { return None }
						let (g, reward_currency, claimed, _) = next.claim(who, d, id, true)?;
						if claimed == 0 { return None }
						Some(vec![E::RewardClaimed { global_farm_id: g, yield_farm_id: id, who, claimed, reward_currency, deposit_id: d }])
					})();
					(got, want)
				}
				Op::Withdraw { who, d, e } => {
					let d = dep(d);
					let id = ent(d, e);
					let who = who.unwrap_or(holder(d));
					let got = atomic(what, || Omni::withdraw_shares(sg(who), d, id))?;
					let want = (|| {
						if held.items.get(&d) != Some(&who) { return None }
						let x = next.deps.get(&d)?;
						let (pool, g) = (x.pool, x.entries.iter().find(|e| e.y == id)?.g);
						let (amount, claim, gone) = next.withdraw(who, d, id, pool)?;
						let mut ev = vec![];
						if let Some((reward_currency, claimed, _)) = claim { if claimed > 0 { ev.push(E::RewardClaimed { global_farm_id: g, yield_farm_id: id, who, claimed, reward_currency, deposit_id: d }); } }
						ev.push(E::SharesWithdrawn { global_farm_id: g, yield_farm_id: id, who, amount, deposit_id: d });
						if gone { let p = nh.under.remove(&d)?; nh.places.get_mut(&p)?.owner = who; nh.items.remove(&d); ev.push(E::DepositDestroyed { who, deposit_id: d }); }
						Some(ev)
					})();
					(got, want)
				}
				Op::Give { d, to } => { let d = dep(d); let has = held.items.contains_key(&d); if has { nh.items.insert(d, to); } (Items::transfer(&COLL, &d, &to), has.then(Vec::new)) }
				Op::GivePosition { p, to } => { let p = place(p, true); let has = held.places.contains_key(&p); if has { Items::transfer(&POSITIONS, &p, &to).unwrap(); nh.places.get_mut(&p).unwrap().owner = to; } (Ok(()), Some(vec![])) }
				Op::Sacrifice { who, p } => {
					let p = place(p, false);
					let of = held.places.get(&p).cloned();
					let who = who.unwrap_or(of.as_ref().map_or(1, |x| if x.owner == me { 1 } else { x.owner }));
					let got = atomic(what, || Omnipool::sacrifice_position(sg(who), p))?;
					let want = of.filter(|x| x.owner == who && held.listed.contains(&x.a)).map(|_| { nh.places.remove(&p); vec![] });
					(got, want)
				}
				Op::Blocks { n } => { next.block += n; System::set_block_number(next.block); (Ok(()), Some(vec![])) }
				Op::Value { a, r } => { world(|w| { w.rate.insert(a, r); }); continue }
				Op::Oracle { g, p } => { let g = farm(g); world(|w| match p { None => { w.price.remove(&g); } Some(x) => { w.price.insert(g, x); } }); continue }
				Op::Listed { a, on } => { if on != held.listed.contains(&a) { if on { list(a); held.listed.insert(a); } else { Omnipool::remove_asset(a).unwrap(); held.listed.remove(&a); } } continue }
				Op::Pay { from, to, cur, x } => { let x = x.of(model.l.get(&from, cur)); (atomic(what, || <Tokens as MultiCurrency<Acc>>::transfer(cur, &from, &to, x))?, next.l.mv(cur, &from, &to, x).map(|_| vec![])) }
				Op::Donate { g, x } => {
					let g = farm(g);
					let Some(f) = model.farms.get(&g) else { continue };
					let (cur, to) = (f.currency, model.account(g));
					let x = x.of(model.l.get(&1, cur));
					(atomic(what, || <Tokens as MultiCurrency<Acc>>::transfer(cur, &1, &to, x))?, next.l.mv(cur, &1, &to, x).map(|_| vec![]))
				}
			};
			agree(what, &got, &want)?;
			match &want {
				None => { m.label("refused"); }
				Some(ev) => {
					model = next;
					held = nh;
					let (mut xe, mut le) = (vec![], vec![]);
					for e in take_events!(Test) { match e { RuntimeEvent::Omni(e) => xe.push(e), RuntimeEvent::Farms(e) => le.push(e), _ => {} } }
					ensure_eq!(&xe, ev, "{}: events", what());
					use pallet_liquidity_mining::Event as L;
					let le: Vec<Ev> = le.into_iter().filter_map(|e| Some(match e { L::GlobalFarmAccRPZUpdated { global_farm_id: g, accumulated_rpz, total_shares_z: z } => Ev::Global { g, rpz: accumulated_rpz.into_inner(), z }, L::YieldFarmAccRPVSUpdated { global_farm_id: g, yield_farm_id: y, accumulated_rpvs, total_valued_shares: valued } => Ev::Yielded { g, y, rpvs: accumulated_rpvs.into_inner(), valued }, L::AllRewardsDistributed { global_farm_id: g } => Ev::Out { g }, _ => return None })).collect();
					ensure_eq!(le, model.ev, "{}: events of the farms", what());
					for l in &model.labels { m.label(*l); }
					match o {
						Op::Claim { .. } => { m.label("claimed"); m.nontrivial(); }
						Op::Withdraw { .. } => { m.label("withdrawn"); if matches!(ev[0], E::RewardClaimed { .. }) { m.label("withdrawn with rewards"); } }
						Op::Deposit { .. } => { m.label("deposited"); }
						Op::Redeposit { .. } => { m.label("redeposited"); }
						Op::Stop { .. } => { m.label("stopped"); }
						Op::Resume { .. } => { m.label("resumed"); }
						Op::EndYield { .. } => { m.label("yield farm ended"); }
						Op::EndFarm { .. } => { m.label("farm ended"); }
						Op::Sacrifice { .. } => { m.label("position sacrificed"); }
						_ => {}
					}
				}
			}
			let mut accounts: Vec<Acc> = vec![1, 2, 3, 4, TREASURY, pot, me];
			for g in 1..=model.farm_seq { accounts.push(model.account(g)); }
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			let f: BTreeMap<u32, Farm> = pallet_liquidity_mining::GlobalFarm::<Test>::iter().map(|(k, v)| (k, Farm::decode(&mut &v.encode()[..]).unwrap())).collect();
			ensure_eq!(f, model.farms, "{}: global farms", what());
			let y: BTreeMap<(AssetId, u32, u32), Yield> = pallet_liquidity_mining::YieldFarm::<Test>::iter().map(|(k, v)| (k, Yield::decode(&mut &v.encode()[..]).unwrap())).collect();
			ensure_eq!(y, model.yields, "{}: yield farms", what());
			let a: BTreeMap<(AssetId, u32), u32> = pallet_liquidity_mining::ActiveYieldFarm::<Test>::iter().map(|(p, g, y)| ((p, g), y)).collect();
			ensure_eq!(a, model.active, "{}: active farms", what());
			let sorted = |mut d: Dep<AssetId>| { d.entries.sort_by_key(|e| e.y); d };
			let d: BTreeMap<u128, Dep<AssetId>> = pallet_liquidity_mining::Deposit::<Test>::iter().map(|(k, v)| (k, sorted(Dep::decode(&mut &v.encode()[..]).unwrap()))).collect();
			ensure_eq!(d, model.deps.iter().map(|(k, v)| (*k, sorted(v.clone()))).collect::<BTreeMap<_, _>>(), "{}: deposits", what());
			ensure_eq!((Farms::last_farm_id(), Farms::deposit_id()), (model.farm_seq, model.dep_seq), "{}: sequences", what());
			for k in 1..=model.dep_seq { ensure_eq!(Items::owner(&COLL, &k), held.items.get(&k).copied(), "{}: holder of deposit {k}", what()); }
			ensure_eq!(held.items.keys().collect::<Vec<_>>(), model.deps.keys().collect::<Vec<_>>(), "{}: deposits have holders", what());
			for k in 1..=held.seq {
				let want = held.places.get(&k);
				ensure_eq!(Items::owner(&POSITIONS, &k), want.map(|x| x.owner), "{}: owner of position {k}", what());
				if let Some(x) = want { ensure_eq!(Omnipool::load_position(k, x.owner), Ok(Position { asset_id: x.a, amount: x.amount, shares: x.shares, price: (1, 1) }), "{}: position {k}", what()); }
			}
			let locked: BTreeSet<u128> = held.places.iter().filter(|x| x.1.owner == me).map(|x| *x.0).collect();
			ensure_eq!(locked, held.under.values().copied().collect::<BTreeSet<_>>(), "{}: locked positions", what());
			let white: BTreeSet<Acc> = Whitelist::<Acc>::all().into_iter().collect();
			ensure_eq!(white, model.l.white, "{}: accounts kept from dusting", what());
			let map: BTreeMap<u128, u128> = state().into_iter().filter(|(k, _)| k.starts_with(&prefix("OmniPositionId"))).map(|(k, v)| (u128::decode(&mut &k[k.len() - 16..]).unwrap(), u128::decode(&mut &v[..]).unwrap())).collect();
			ensure_eq!(map, held.under, "{}: positions of deposits", what());
			model.solvent(|c| Tokens::free_balance(c, &pot)).map_err(|e| format!("{}: {e}", what()))?;
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; prices, asset registry, items and list of accounts kept from dusting by tables; positions and listed assets put into the real omnipool pallet");
	c.check("farms", "histories of farms, positions deposited, claims, withdrawals, blocks, prices and listings, by owners, users and others against an exact model; non-trivial: rewards were claimed", 20_000, 400_000, || case(50), run);
	std::process::exit(c.finish());
}
