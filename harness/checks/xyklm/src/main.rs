use frame_support::traits::tokens::nonfungibles::{Inspect as _, Transfer as _};
use frame_support::PalletId;
use frame_system::RawOrigin;
use hydradx_traits::{AMMPosition, AMMTransfer, AMM};
use kit::fakes::{NftOf, Whitelist};
use kit::lm::{Acc, Dep, Ev, Farm, Lm, Settings, Yield};
use kit::*;
use codec::{Decode, Encode};
use pallet_liquidity_mining::{GlobalFarmData, LoyaltyCurve};
use pallet_xyk::types::AssetPair;
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Farms: pallet_liquidity_mining, Xyk: pallet_xyk_liquidity_mining });
const F: u128 = 1_000_000_000_000_000_000;
const TREASURY: Acc = 99;
const COLL: u128 = 7;
const REWARDS: [AssetId; 4] = [0, 1, 2, 4];
const PAIRS: [(AssetId, AssetId); 4] = [(0, 1), (0, 2), (1, 2), (0, 4)];
const LP: [AssetId; 4] = [11, 12, 13, 14];
fn ed(a: AssetId) -> u128 { match a { 1 => 1000, 2 => 1_000_000, _ => 1 } }
orml_traits::parameter_type_with_key! { pub Eds: |c: u32| -> u128 { ed(*c) }; }
system_config!(Test, u128, ());
tokens_config!(Test, Eds, Whitelist<u128>, ());
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Cfg { min_total: u128, min_periods: u64, max_entries: u32, max_farms: u32, treasury: u128 }
#[derive(Default)]
struct World { cfg: Cfg, rate: BTreeMap<(usize, AssetId), Option<u128>>, missing: BTreeSet<usize>, price: BTreeMap<u32, Option<u128>> }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
parameter_types! {
	pub const Pid: PalletId = PalletId(*b"farms/pt");
	pub const XPid: PalletId = PalletId(*b"xyklm/pt");
	pub const Treasury: Acc = TREASURY;
	pub MinTotal: u128 = world(|w| w.cfg.min_total);
	pub MinPeriods: u64 = world(|w| w.cfg.min_periods);
	pub MaxEntries: u32 = world(|w| w.cfg.max_entries);
	pub MaxFarms: u32 = world(|w| w.cfg.max_farms);
	pub const Coll: u128 = COLL;
}
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(a: AssetId) -> bool { a == 0 || a == 2 }
	fn exists(a: AssetId) -> bool { a < 4 }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: AssetId) -> Option<u128> { if a < 4 { Some(ed(a)) } else { None } }
}
impl orml_traits::GetByKey<AssetId, u128> for Reg { fn get(a: &AssetId) -> u128 { ed(*a) } }
pub struct Price;
impl hydradx_traits::liquidity_mining::PriceAdjustment<GlobalFarmData<Test>> for Price {
	type Error = DispatchError;
	type PriceAdjustment = FixedU128;
	fn get(f: &GlobalFarmData<Test>) -> Result<FixedU128, DispatchError> {
		match world(|w| w.price.get(&f.id).copied()) { None => pallet_liquidity_mining::DefaultPriceAdjustment::get(f), Some(None) => Err("no price".into()), Some(Some(p)) => Ok(FixedU128::from_inner(p)) }
	}
}
impl pallet_liquidity_mining::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type MultiCurrency = Tokens;
	type PalletId = Pid;
	type TreasuryAccountId = Treasury;
	type MinTotalFarmRewards = MinTotal;
	type MinPlannedYieldingPeriods = MinPeriods;
	type BlockNumberProvider = System;
	type AmmPoolId = Acc;
	type MaxFarmEntriesPerDeposit = MaxEntries;
	type MaxYieldFarmsPerGlobalFarm = MaxFarms;
	type AssetRegistry = Reg;
	type NonDustableWhitelistHandler = Whitelist<Acc>;
	type PriceAdjustment = Price;
}
fn pool(p: &AssetPair) -> Option<usize> { let k = (p.asset_in.min(p.asset_out), p.asset_in.max(p.asset_out)); PAIRS.iter().position(|x| *x == k) }
fn pool_acc(p: usize) -> Acc { 1000 + p as Acc }
fn pair(p: usize, flip: bool) -> AssetPair { let (a, c) = PAIRS[p]; if flip { AssetPair::new(c, a) } else { AssetPair::new(a, c) } }
fn alive(p: usize) -> bool { world(|w| !w.missing.contains(&p)) }
fn value(p: usize, a: AssetId, x: u128) -> Option<u128> { md(x, world(|w| w.rate.get(&(p, a)).copied().flatten())?, 1_000_000) }
pub struct Amm;
impl AMM<Acc, AssetId, AssetPair, u128> for Amm {
	fn exists(p: AssetPair) -> bool { pool(&p).map_or(false, alive) }
	fn get_pair_id(p: AssetPair) -> Acc { pool(&p).map_or(0, pool_acc) }
	fn get_share_token(p: AssetPair) -> AssetId { if Self::exists(p) { LP[pool(&p).unwrap()] } else { 0 } }
	fn get_pool_assets(a: &Acc) -> Option<Vec<AssetId>> { let p = (0..PAIRS.len()).find(|p| pool_acc(*p) == *a)?; if alive(p) { Some(vec![PAIRS[p].0, PAIRS[p].1]) } else { None } }
	fn get_spot_price_unchecked(_: AssetId, _: AssetId, _: u128) -> u128 { 0 }
	fn validate_sell(_: &Acc, _: AssetPair, _: u128, _: u128, _: bool) -> Result<AMMTransfer<Acc, AssetId, AssetPair, u128>, DispatchError> { Err("no".into()) }
	fn execute_sell(_: &AMMTransfer<Acc, AssetId, AssetPair, u128>) -> DispatchResult { Err("no".into()) }
	fn validate_buy(_: &Acc, _: AssetPair, _: u128, _: u128, _: bool) -> Result<AMMTransfer<Acc, AssetId, AssetPair, u128>, DispatchError> { Err("no".into()) }
	fn execute_buy(_: &AMMTransfer<Acc, AssetId, AssetPair, u128>) -> DispatchResult { Err("no".into()) }
	fn get_min_trading_limit() -> u128 { 0 }
	fn get_min_pool_liquidity() -> u128 { 0 }
	fn get_max_in_ratio() -> u128 { 0 }
	fn get_max_out_ratio() -> u128 { 0 }
	fn get_fee(_: &Acc) -> (u32, u32) { (0, 0) }
}
impl AMMPosition<AssetId, u128> for Amm {
	type Error = DispatchError;
	fn get_liquidity_behind_shares(a: AssetId, c: AssetId, x: u128) -> Result<(u128, u128), DispatchError> {
		let p = pool(&AssetPair::new(a, c)).ok_or("no pool")?;
		Ok((value(p, a, x).ok_or("no value")?, value(p, c, x).ok_or("no value")?))
	}
}
type Items = NftOf<Acc, u128, u128>;
impl pallet_xyk_liquidity_mining::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currencies = Tokens;
	type AMM = Amm;
	type CreateOrigin = frame_system::EnsureRoot<Acc>;
	type PalletId = XPid;
	type NFTCollectionId = Coll;
	type NFTHandler = Items;
	type LiquidityMiningHandler = Farms;
	type NonDustableWhitelistHandler = Whitelist<Acc>;
	type AssetRegistry = Reg;
	type WeightInfo = ();
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	CreateFarm { root: bool, owner: Acc, total: A, planned: u64, bpp: u64, inc: AssetId, cur: AssetId, ypp: u64, min: u128, price: u128 },
	SetPrice { who: Option<Acc>, g: u8, price: u128 },
	EndFarm { who: Option<Acc>, g: u8 },
	CreateYield { who: Option<Acc>, g: u8, p: usize, flip: bool, mult: u128, curve: Option<(u128, u32)> },
	SetMult { who: Option<Acc>, y: u8, flip: bool, mult: u128 },
	Stop { who: Option<Acc>, y: u8, flip: bool },
	Resume { who: Option<Acc>, y: u8, flip: bool, mult: u128 },
	EndYield { who: Option<Acc>, y: u8, flip: bool },
	Deposit { who: Acc, y: u8, p: Option<usize>, x: A },
	Redeposit { who: Option<Acc>, d: u8, y: u8, p: Option<usize> },
	Claim { who: Option<Acc>, d: u8, e: u8 },
	Withdraw { who: Option<Acc>, d: u8, e: u8, p: Option<usize>, flip: bool },
	Give { d: u8, to: Acc },
	Blocks { n: u64 },
	Value { p: usize, second: bool, r: Option<u128> },
	Oracle { g: u8, p: Option<Option<u128>> },
	Missing { p: usize, gone: bool },
	Pay { from: Acc, to: Acc, cur: AssetId, x: A },
	Donate { g: u8, x: A },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn mult() -> BoxedStrategy<u128> { prop_oneof![2 => Just(F), 2 => Just(F / 2), 2 => Just(F / 1000), 1 => Just(F / 1000 - 1), 3 => F / 1000..F * 4, 1 => Just(0u128), 1 => mag(F / 1000, F * 1000)].boxed() }
fn fp() -> BoxedStrategy<u128> { prop_oneof![4 => Just(F), 3 => F / 100..F * 10, 1 => mag(1, F * F), 1 => Just(0u128)].boxed() }
fn who() -> BoxedStrategy<Option<Acc>> { prop::option::weighted(0.08, 1u128..=4).boxed() }
fn op() -> BoxedStrategy<Op> {
	let other = || prop::option::weighted(0.1, 0usize..4);
	prop_oneof![
		3 => (prop::bool::weighted(0.95), 1u128..=3, prop_oneof![3 => (1u32..200_000).prop_map(A::Part), 1 => amt()], prop_oneof![6 => 1u64..40, 1 => 0u64..2, 1 => any::<u64>()], prop_oneof![6 => 1u64..4, 1 => 0u64..30], prop::sample::select(vec![0u32, 0, 0, 1, 2, 4]), prop::sample::select(vec![0u32, 0, 1, 1, 2, 4]), prop_oneof![4 => 1_000_000_000_000_000u64..=500_000_000_000_000_000, 1 => Just(1_000_000_000_000_000_000u64), 1 => 0u64..3], prop_oneof![5 => Just(1000u128), 1 => 998u128..1002, 2 => mag(1000, 1 << 60)], prop_oneof![5 => Just(F), 2 => fp()]).prop_map(|(root, owner, total, planned, bpp, inc, cur, ypp, min, price)| Op::CreateFarm { root, owner, total, planned, bpp, inc, cur, ypp, min, price }),
		1 => (who(), any::<u8>(), fp()).prop_map(|(who, g, price)| Op::SetPrice { who, g, price }),
		2 => (who(), any::<u8>()).prop_map(|(who, g)| Op::EndFarm { who, g }),
		4 => (who(), any::<u8>(), 0usize..4, any::<bool>(), mult(), prop::option::of((prop_oneof![3 => 0u128..F, 1 => F - 1..=F], prop_oneof![5 => 1u32..50, 1 => Just(0u32), 1 => any::<u32>()]))).prop_map(|(who, g, p, flip, mult, curve)| Op::CreateYield { who, g, p, flip, mult, curve }),
		2 => (who(), any::<u8>(), any::<bool>(), mult()).prop_map(|(who, y, flip, mult)| Op::SetMult { who, y, flip, mult }),
		3 => (who(), any::<u8>(), any::<bool>()).prop_map(|(who, y, flip)| Op::Stop { who, y, flip }),
		3 => (who(), any::<u8>(), any::<bool>(), mult()).prop_map(|(who, y, flip, mult)| Op::Resume { who, y, flip, mult }),
		2 => (who(), any::<u8>(), any::<bool>()).prop_map(|(who, y, flip)| Op::EndYield { who, y, flip }),
		8 => (1u128..=4, any::<u8>(), other(), prop_oneof![4 => (1u32..300_000).prop_map(A::Part), 3 => (1000u128..1010).prop_map(A::Abs), 2 => mag(900, 1 << 60).prop_map(A::Abs), 1 => amt()]).prop_map(|(who, y, p, x)| Op::Deposit { who, y, p, x }),
		8 => (who(), any::<u8>(), any::<u8>(), other()).prop_map(|(who, d, y, p)| Op::Redeposit { who, d, y, p }),
		8 => (who(), any::<u8>(), any::<u8>()).prop_map(|(who, d, e)| Op::Claim { who, d, e }),
		5 => (who(), any::<u8>(), any::<u8>(), other(), any::<bool>()).prop_map(|(who, d, e, p, flip)| Op::Withdraw { who, d, e, p, flip }),
		1 => (any::<u8>(), 1u128..=4).prop_map(|(d, to)| Op::Give { d, to }),
		18 => prop_oneof![5 => 1u64..5, 2 => 1u64..30, 1 => 1u64..5000].prop_map(|n| Op::Blocks { n }),
		2 => (0usize..4, any::<bool>(), prop::option::weighted(0.9, mag(1, 1 << 45))).prop_map(|(p, second, r)| Op::Value { p, second, r }),
		1 => (any::<u8>(), prop::option::of(prop::option::weighted(0.8, fp()))).prop_map(|(g, p)| Op::Oracle { g, p }),
		1 => (0usize..4, prop::bool::weighted(0.2)).prop_map(|(p, gone)| Op::Missing { p, gone }),
		1 => (1u128..=4, 1u128..=4, prop::sample::select(vec![0u32, 1, 2, 11, 12, 13]), amt()).prop_map(|(from, to, cur, x)| Op::Pay { from, to, cur, x }),
		1 => (any::<u8>(), (0u32..10_000).prop_map(A::Part)).prop_map(|(g, x)| Op::Donate { g, x }),
	].boxed()
}
/// A start that has running farms, so that histories reach deep states.
fn opening() -> BoxedStrategy<Vec<Op>> {
	let farm = (1u128..=3, 1u32..200_000, 1u64..30, 1u64..4, prop::sample::select(vec![0u32, 0, 1, 2]), 10_000_000_000_000_000u64..=500_000_000_000_000_000).prop_map(|(owner, t, planned, bpp, cur, ypp)| Op::CreateFarm { root: true, owner, total: A::Part(t), planned, bpp, inc: 0, cur, ypp, min: 1000, price: F });
	let yields = proptest::collection::vec((any::<u8>(), 0usize..2, prop_oneof![Just(F), Just(F / 2), F / 1000..F * 4], prop::option::of((0u128..F, 1u32..50))).prop_map(|(g, p, mult, curve)| Op::CreateYield { who: None, g, p, flip: false, mult, curve }), 1..5);
	(proptest::collection::vec(farm, 1..4), yields).prop_map(|(mut f, y)| { f.extend(y); f }).boxed()
}
fn case(n: usize) -> BoxedStrategy<Case> {
	let cfg = (prop_oneof![Just(0u128), mag(1, 1 << 70)], 0u64..3, prop_oneof![1 => Just(1u32), 4 => 2u32..4], prop_oneof![1 => Just(1u32), 5 => 2u32..6], prop_oneof![Just(0u128), Just(1u128 << 60)]).prop_map(|(min_total, min_periods, max_entries, max_farms, treasury)| Cfg { min_total, min_periods, max_entries, max_farms, treasury });
	(cfg, opening(), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, mut ops, more)| { ops.extend(more); Case { cfg, ops } }).boxed()
}
type Model = Lm<Acc>;
type E = pallet_xyk_liquidity_mining::Event<Test>;
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn pick<T: Clone>(v: Vec<T>, i: u8) -> Option<T> { if v.is_empty() || i == 255 { None } else { Some(v[i as usize % v.len()].clone()) } }
fn run(c: &Case, m: &mut Meter) -> Res {
	world(|w| { *w = World { cfg: c.cfg.clone(), ..Default::default() }; for p in 0..4 { for a in [PAIRS[p].0, PAIRS[p].1] { w.rate.insert((p, a), Some(1_000_000)); } } w.missing.insert(3); });
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut pot_seed = b"modl".to_vec();
	pot_seed.extend(*b"farms/pt");
	let pot: Acc = Pid::get().into_account_truncating();
	let me: Acc = XPid::get().into_account_truncating();
	let mut model: Model = Lm::new(Settings { min_total: c.cfg.min_total, min_periods: c.cfg.min_periods, max_entries: c.cfg.max_entries, max_farms: c.cfg.max_farms, treasury: TREASURY, pot, base: pot_seed });
	for a in 0..4 { model.l.eds.insert(a, ed(a)); }
	model.l.white.insert(me);
	let mut bal = vec![];
	for a in REWARDS { for w in 1..=3u128 { bal.push((w, a, (1u128 << 75) + w)); } if c.cfg.treasury > 0 { bal.push((TREASURY, a, c.cfg.treasury)); } }
	for a in LP { for w in 1..=4u128 { bal.push((w, a, (1u128 << 70) + w)); } }
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	pallet_liquidity_mining::GenesisConfig::<Test>::default().assimilate_storage(&mut st).unwrap();
	pallet_xyk_liquidity_mining::GenesisConfig::<Test>::default().assimilate_storage(&mut st).unwrap();
	let mut items: BTreeMap<u128, Acc> = BTreeMap::new();
	let assets: Vec<AssetId> = REWARDS.iter().chain(LP.iter()).copied().collect();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let sg = |w: Acc| RuntimeOrigin::from(RawOrigin::Signed(w));
			let mut next = model.clone();
			next.ev.clear();
			next.labels.clear();
			next.price = world(|w| w.price.clone());
			let farms: Vec<u32> = model.farms.keys().copied().collect();
			let yields: Vec<(Acc, u32, u32)> = model.yields.keys().cloned().collect();
			let farm = |g: u8| pick(farms.clone(), g).unwrap_or(77);
			let yld = |y: u8| pick(yields.clone(), y).unwrap_or((pool_acc(0), 77, 78));
			let owner = |g: u32| model.farms.get(&g).map_or(1, |f| f.owner);
			let pof = |a: Acc| (a - 1000) as usize;
			let dep = |d: u8| pick(model.deps.keys().copied().collect(), d).unwrap_or(77);
			let holder = |d: u128| items.get(&d).copied().unwrap_or(1);
			let ent = |d: u128, e: u8| model.deps.get(&d).and_then(|x| pick(x.entries.clone(), e)).map_or(79, |e| e.y);
			let mut nitems = items.clone();
			// what the code says, what it must say with its events
			let (got, want): (DispatchResult, Option<Vec<E>>) = match o.clone() {
				Op::CreateFarm { root, owner, total, planned, bpp, inc, cur, ypp, min, price } => {
					let total = total.of(model.l.get(&owner, cur));
					let got = atomic(what, || Xyk::create_global_farm(if root { RawOrigin::Root.into() } else { sg(owner) }, total, planned, bpp, inc, cur, owner, Perquintill::from_parts(ypp), min, fx(price)))?;
					let ypp = ypp.min(F as u64);
					let want = (|| {
						if !root { return None }
						if cur != 0 && cur != 2 { let e = *next.l.eds.get(&cur)?; next.l.mv(cur, &owner, &pot, e)?; }
						let (id, max) = next.create_farm(total, planned, bpp, inc, cur, owner, ypp, min, price)?;
						Some(vec![E::GlobalFarmCreated { id, owner, total_rewards: total, reward_currency: cur, yield_per_period: Perquintill::from_parts(ypp), planned_yielding_periods: planned, blocks_per_period: bpp, incentivized_asset: inc, max_reward_per_period: max, min_deposit: min, price_adjustment: fx(price) }])
					})();
					(got, want)
				}
				Op::SetPrice { who, g, price } => {
					let g = farm(g);
					let who = who.unwrap_or(owner(g));
					(atomic(what, || Xyk::update_global_farm(sg(who), g, fx(price)))?, next.set_price(who, g, price).map(|_| vec![E::GlobalFarmUpdated { id: g, price_adjustment: fx(price) }]))
				}
				Op::EndFarm { who, g } => {
					let g = farm(g);
					let who = who.unwrap_or(owner(g));
					(atomic(what, || Xyk::terminate_global_farm(sg(who), g))?, next.end_farm(who, g).map(|(reward_currency, undistributed_rewards, who)| vec![E::GlobalFarmTerminated { global_farm_id: g, who, reward_currency, undistributed_rewards }]))
				}
				Op::CreateYield { who, g, p, flip, mult, curve } => {
					let g = farm(g);
					let who = who.unwrap_or(owner(g));
					let lc = curve.map(|(i, s)| LoyaltyCurve { initial_reward_percentage: fx(i), scale_coef: s });
					let got = atomic(what, || Xyk::create_yield_farm(sg(who), g, pair(p, flip), fx(mult), lc.clone()))?;
					let want = if alive(p) { next.create_yield(who, g, mult, curve, pool_acc(p), &[PAIRS[p].0, PAIRS[p].1]) } else { None };
					(got, want.map(|id| vec![E::YieldFarmCreated { global_farm_id: g, yield_farm_id: id, multiplier: fx(mult), asset_pair: pair(p, flip), loyalty_curve: lc }]))
				}
				Op::SetMult { who, y, flip, mult } => {
					let (a, g, _) = yld(y);
					let who = who.unwrap_or(owner(g));
					let pr = pair(pof(a), flip);
					let got = atomic(what, || Xyk::update_yield_farm(sg(who), g, pr, fx(mult)))?;
					let want = if alive(pof(a)) { next.set_mult(who, g, a, mult) } else { None };
					(got, want.map(|id| vec![E::YieldFarmUpdated { global_farm_id: g, yield_farm_id: id, who, asset_pair: pr, multiplier: fx(mult) }]))
				}
				Op::Stop { who, y, flip } => {
					let (a, g, _) = yld(y);
					let who = who.unwrap_or(owner(g));
					let pr = pair(pof(a), flip);
					(atomic(what, || Xyk::stop_yield_farm(sg(who), g, pr))?, next.stop(who, g, a).map(|id| vec![E::YieldFarmStopped { global_farm_id: g, yield_farm_id: id, who, asset_pair: pr }]))
				}
				Op::Resume { who, y, flip, mult } => {
					let (a, g, id) = yld(y);
					let who = who.unwrap_or(owner(g));
					let pr = pair(pof(a), flip);
					let got = atomic(what, || Xyk::resume_yield_farm(sg(who), g, id, pr, fx(mult)))?;
					let want = if alive(pof(a)) { next.resume(who, g, id, a, mult) } else { None };
					(got, want.map(|_| vec![E::YieldFarmResumed { global_farm_id: g, yield_farm_id: id, who, asset_pair: pr, multiplier: fx(mult) }]))
				}
				Op::EndYield { who, y, flip } => {
					let (a, g, id) = yld(y);
					let who = who.unwrap_or(owner(g));
					let pr = pair(pof(a), flip);
					(atomic(what, || Xyk::terminate_yield_farm(sg(who), g, id, pr))?, next.end_yield(who, g, id, a).map(|_| vec![E::YieldFarmTerminated { global_farm_id: g, yield_farm_id: id, who, asset_pair: pr }]))
				}
				Op::Deposit { who, y, p, x } => {
					let running = model.yields.iter().filter(|(_, f)| f.state == kit::lm::State::Active).map(|(k, _)| *k).collect();
					let (a, g, id) = if y % 8 > 0 { pick(running, y).unwrap_or(yld(y)) } else { yld(y) };
					let p = p.unwrap_or(pof(a));
					let x = x.of(model.l.get(&who, LP[p]));
					let got = atomic(what, || Xyk::deposit_shares(sg(who), g, id, pair(p, x % 2 == 0), x))?;
					let want = (|| {
						if !alive(p) || next.l.get(&who, LP[p]) < x { return None }
						let d = next.deposit(g, id, pool_acc(p), x, |a| value(p, PAIRS[p].0, x).and(value(p, PAIRS[p].1, x)).and(value(p, a, x)))?;
						next.l.mv(LP[p], &who, &me, x)?;
						nitems.insert(d, who);
						Some(vec![E::SharesDeposited { global_farm_id: g, yield_farm_id: id, who, amount: x, lp_token: LP[p], deposit_id: d }])
					})();
					(got, want)
				}
				Op::Redeposit { who, d, y, p } => {
					let (_, g, id) = yld(y);
					let d = dep(d);
					let own = model.deps.get(&d).map_or(0, |x| pof(x.pool));
					// mostly a farm of the deposit's own pool
					let (g, id) = if y % 8 > 0 { pick(yields.iter().filter(|k| pof(k.0) == own && model.yields[*k].state == kit::lm::State::Active && model.deps.get(&d).map_or(true, |d| !d.entries.iter().any(|e| e.y == k.2))).collect(), y).map_or((g, id), |k| (k.1, k.2)) } else { (g, id) };
					let p = p.unwrap_or(own);
					let who = who.unwrap_or(holder(d));
					let got = atomic(what, || Xyk::redeposit_shares(sg(who), g, id, pair(p, false), d))?;
					let want = (|| {
						if items.get(&d) != Some(&who) || !alive(p) || own != p { return None }
						let (amount, _) = next.redeposit(g, id, d, |a, x| value(p, PAIRS[p].0, x).and(value(p, PAIRS[p].1, x)).and(value(p, a, x)))?;
						Some(vec![E::SharesRedeposited { global_farm_id: g, yield_farm_id: id, who, amount, lp_token: LP[p], deposit_id: d }])
					})();
					(got, want)
				}
				Op::Claim { who, d, e } => {
					let d = dep(d);
					let id = ent(d, e);
					let who = who.unwrap_or(holder(d));
					let got = atomic(what, || Xyk::claim_rewards(sg(who), d, id))?;
					let want = (|| {
						if items.get(&d) != Some(&who) { return None }
						let (g, reward_currency, claimed, _) = next.claim(who, d, id, true)?;
						if claimed == 0 { return None }
						Some(vec![E::RewardClaimed { global_farm_id: g, yield_farm_id: id, who, claimed, reward_currency, deposit_id: d }])
					})();
					(got, want)
				}
				Op::Withdraw { who, d, e, p, flip } => {
					let d = dep(d);
					let id = ent(d, e);
					let who = who.unwrap_or(holder(d));
					let own = model.deps.get(&d).map_or(0, |x| pof(x.pool));
					let p = p.unwrap_or(own);
					let got = atomic(what, || Xyk::withdraw_shares(sg(who), d, id, pair(p, flip)))?;
					let want = (|| {
						if items.get(&d) != Some(&who) || !alive(p) { return None }
						let g = next.deps.get(&d)?.entries.iter().find(|e| e.y == id)?.g;
						let (amount, claim, gone) = next.withdraw(who, d, id, pool_acc(p))?;
						let mut ev = vec![];
						if let Some((reward_currency, claimed, _)) = claim { if claimed > 0 { ev.push(E::RewardClaimed { global_farm_id: g, yield_farm_id: id, who, claimed, reward_currency, deposit_id: d }); } }
						ev.push(E::SharesWithdrawn { global_farm_id: g, yield_farm_id: id, who, lp_token: LP[p], amount, deposit_id: d });
						if gone { next.l.mv(LP[p], &me, &who, amount)?; nitems.remove(&d); ev.push(E::DepositDestroyed { who, deposit_id: d }); }
						Some(ev)
					})();
					(got, want)
				}
				Op::Give { d, to } => { let d = dep(d); let has = items.contains_key(&d); if has { nitems.insert(d, to); } (Items::transfer(&COLL, &d, &to), has.then(Vec::new)) }
				Op::Blocks { n } => { next.block += n; System::set_block_number(next.block); (Ok(()), Some(vec![])) }
				Op::Value { p, second, r } => { let a = if second { PAIRS[p].1 } else { PAIRS[p].0 }; world(|w| { w.rate.insert((p, a), r); }); continue }
				Op::Oracle { g, p } => { let g = farm(g); world(|w| match p { None => { w.price.remove(&g); } Some(x) => { w.price.insert(g, x); } }); continue }
				Op::Missing { p, gone } => { world(|w| if gone { w.missing.insert(p); } else { w.missing.remove(&p); }); continue }
				Op::Pay { from, to, cur, x } => { let x = x.of(model.l.get(&from, cur)); (atomic(what, || <Tokens as MultiCurrency<Acc>>::transfer(cur, &from, &to, x))?, next.l.mv(cur, &from, &to, x).map(|_| vec![])) }
				Op::Donate { g, x } => {
					let g = farm(g);
					let Some(f) = model.farms.get(&g) else { continue };
					let (cur, to) = (f.currency, model.account(g));
					let x = x.of(model.l.get(&1, cur));
					(atomic(what, || <Tokens as MultiCurrency<Acc>>::transfer(cur, &1, &to, x))?, next.l.mv(cur, &1, &to, x).map(|_| vec![]))
				}
			};
			agree(what, &got, &want)?;
			match &want {
				None => { m.label("refused"); }
				Some(ev) => {
					model = next;
					items = nitems;
					let (mut xe, mut le) = (vec![], vec![]);
					for e in take_events!(Test) { match e { RuntimeEvent::Xyk(e) => xe.push(e), RuntimeEvent::Farms(e) => le.push(e), _ => {} } }
					ensure_eq!(&xe, ev, "{}: events", what());
					use pallet_liquidity_mining::Event as L;
					let le: Vec<Ev> = le.into_iter().filter_map(|e| Some(match e { L::GlobalFarmAccRPZUpdated { global_farm_id: g, accumulated_rpz, total_shares_z: z } => Ev::Global { g, rpz: accumulated_rpz.into_inner(), z }, L::YieldFarmAccRPVSUpdated { global_farm_id: g, yield_farm_id: y, accumulated_rpvs, total_valued_shares: valued } => Ev::Yielded { g, y, rpvs: accumulated_rpvs.into_inner(), valued }, L::AllRewardsDistributed { global_farm_id: g } => Ev::Out { g }, _ => return None })).collect();
					ensure_eq!(le, model.ev, "{}: events of the farms", what());
					for l in &model.labels { m.label(*l); }
					match o {
						Op::Claim { .. } => { m.label("claimed"); m.nontrivial(); }
						Op::Withdraw { .. } => { m.label("withdrawn"); if ev.len() > 1 && matches!(ev[0], E::RewardClaimed { .. }) { m.label("withdrawn with rewards"); } }
						Op::Deposit { .. } => { m.label("deposited"); }
						Op::Redeposit { .. } => { m.label("redeposited"); }
						Op::Stop { .. } => { m.label("stopped"); }
						Op::Resume { .. } => { m.label("resumed"); }
						Op::EndYield { .. } => { m.label("yield farm ended"); }
						Op::EndFarm { .. } => { m.label("farm ended"); }
						_ => {}
					}
				}
			}
			let mut accounts: Vec<Acc> = vec![1, 2, 3, 4, TREASURY, pot, me];
			for g in 1..=model.farm_seq { accounts.push(model.account(g)); }
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			let f: BTreeMap<u32, Farm> = pallet_liquidity_mining::GlobalFarm::<Test>::iter().map(|(k, v)| (k, Farm::decode(&mut &v.encode()[..]).unwrap())).collect();
			ensure_eq!(f, model.farms, "{}: global farms", what());
			let y: BTreeMap<(Acc, u32, u32), Yield> = pallet_liquidity_mining::YieldFarm::<Test>::iter().map(|(k, v)| (k, Yield::decode(&mut &v.encode()[..]).unwrap())).collect();
			ensure_eq!(y, model.yields, "{}: yield farms", what());
			let a: BTreeMap<(Acc, u32), u32> = pallet_liquidity_mining::ActiveYieldFarm::<Test>::iter().map(|(p, g, y)| ((p, g), y)).collect();
			ensure_eq!(a, model.active, "{}: active farms", what());
			let sorted = |mut d: Dep<Acc>| { d.entries.sort_by_key(|e| e.y); d };
			let d: BTreeMap<u128, Dep<Acc>> = pallet_liquidity_mining::Deposit::<Test>::iter().map(|(k, v)| (k, sorted(Dep::decode(&mut &v.encode()[..]).unwrap()))).collect();
			ensure_eq!(d, model.deps.iter().map(|(k, v)| (*k, sorted(v.clone()))).collect::<BTreeMap<_, _>>(), "{}: deposits", what());
			ensure_eq!((Farms::last_farm_id(), Farms::deposit_id()), (model.farm_seq, model.dep_seq), "{}: sequences", what());
			for (k, w) in &items { ensure_eq!(Items::owner(&COLL, k), Some(*w), "{}: owner of deposit {k}", what()); }
			for k in 1..=model.dep_seq { ensure_eq!(Items::owner(&COLL, &k).is_some(), model.deps.contains_key(&k), "{}: item of deposit {k}", what()); }
			let white: BTreeSet<Acc> = Whitelist::<Acc>::all().into_iter().collect();
			ensure_eq!(white, model.l.white, "{}: accounts kept from dusting", what());
			for p in 0..4 { let locked: u128 = model.deps.values().filter(|d| d.pool == pool_acc(p)).map(|d| d.shares).sum(); ensure_eq!(Tokens::free_balance(LP[p], &me), locked, "{}: shares held for deposits in pool {p}", what()); }
			model.solvent(|c| Tokens::free_balance(c, &pot)).map_err(|e| format!("{}: {e}", what()))?;
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; pools, prices, asset registry, items and list of accounts kept from dusting by tables");
	c.check("farms", "histories of farms, deposits, claims, withdrawals, blocks, values and prices, by owners, users and others against an exact model; non-trivial: rewards were claimed", 20_000, 400_000, || case(50), run);
	std::process::exit(c.finish());
}
