use frame_support::traits::{fungible, fungibles, tokens::{Fortitude, Preservation, Provenance}, Contains, LockIdentifier, LockableCurrency, WithdrawReasons};
use hydra_dx_math::ratio::Ratio;
use hydradx_adapters::{inspect::MultiInspectAdapter, price::{ConvertAmount, FeeAssetBalanceInCurrency, OraclePriceProviderUsingRoute}, xyk::AllowPoolCreation, AssetFeeOraclePriceProvider, MultiCurrencyLockedBalance, OraclePriceProvider, VestingInfo};
use hydradx_traits::{price::PriceProvider, registry::AssetKind, router::{AssetPair, PoolType, RouteProvider, Trade}, AccountFeeCurrency, AccountFeeCurrencyBalanceInCurrency, AggregatedPriceOracle, AssetPairAccountIdFor, CanCreatePool, LockedBalance, NativePriceOracle, OraclePeriod, PriceOracle, Source};
use kit::*;
use pallet_ema_oracle::{OracleError, MAX_PERIODS};
use pallet_lbp::WeightCurveType;
use pallet_staking::traits::VestingDetails;
use sp_core::crypto::AccountId32;
use sp_runtime::traits::Convert;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Oracle: pallet_ema_oracle, LBP: pallet_lbp });
system_config!(Test, AccountId32, pallet_balances::AccountData<u128>);
orml_traits::parameter_type_with_key! { pub Eds: |c: u32| -> u128 { ED[*c as usize % ED.len()] }; }
tokens_config!(Test, Eds, Nothing, ());
const ED: [u128; 5] = [9, 1, 3, 100, 7];
const NATIVE: u32 = 0;
const HUB: u32 = 1;
parameter_types! {
	pub const Native: u32 = NATIVE;
	pub const Hub: u32 = HUB;
	pub Periods: frame_support::BoundedVec<OraclePeriod, ConstU32<MAX_PERIODS>> = Default::default();
	pub Per: OraclePeriod = WORLD.with(|w| PERIODS[w.borrow().period as usize]);
}
impl pallet_balances::Config for Test {
	type MaxLocks = ConstU32<20>;
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<10>;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = ();
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_ema_oracle::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type AuthorityOrigin = frame_system::EnsureRoot<AccountId32>;
	type BlockNumberProvider = System;
	type SupportedPeriods = Periods;
	type OracleWhitelist = Everything;
	type MaxUniqueEntries = ConstU32<20>;
}
pub struct PairId;
fn pool_of(a: u32, b: u32) -> AccountId32 { let mut d = [0xee; 32]; d[0] = a.min(b) as u8; d[1] = a.max(b) as u8; AccountId32::new(d) }
impl AssetPairAccountIdFor<AssetId, AccountId32> for PairId { fn from_assets(a: u32, b: u32, _: &str) -> AccountId32 { pool_of(a, b) } }
impl pallet_lbp::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = Tokens;
	type LockedBalance = Locks;
	type CreatePoolOrigin = frame_system::EnsureRoot<AccountId32>;
	type LBPWeightFunction = pallet_lbp::LBPWeightFunction;
	type AssetPairAccountId = PairId;
	type WeightInfo = ();
	type MinTradingLimit = ConstU128<1000>;
	type MinPoolLiquidity = ConstU128<1000>;
	type MaxInRatio = ConstU128<3>;
	type MaxOutRatio = ConstU128<3>;
	type BlockNumberProvider = System;
}
type Locks = MultiCurrencyLockedBalance<Test, Native>;
fn acc(i: u8) -> AccountId32 { AccountId32::new([i; 32]) }

// ---- the sources of prices
const PERIODS: [OraclePeriod; 6] = [OraclePeriod::LastBlock, OraclePeriod::Short, OraclePeriod::TenMinutes, OraclePeriod::Hour, OraclePeriod::Day, OraclePeriod::Week];
const SRC: [Source; 4] = [*b"omnipool", *b"stablesw", *b"hydraxyk", *b"hydralbp"];
/// (source, lower asset, higher asset, period) -> lower per higher
type Table = BTreeMap<(u8, u32, u32, u8), (u128, u128)>;
type Hop = (u8, u32, u32, u32);
#[derive(Clone, Debug, Default)]
struct World { prices: Table, period: u8, routes: BTreeMap<(u32, u32), Vec<Hop>>, accepted: Vec<u32>, fallback: BTreeMap<u32, u128>, chosen: BTreeMap<AccountId32, u32>, kinds: BTreeMap<u32, u8> }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn per(p: OraclePeriod) -> u8 { PERIODS.iter().position(|x| *x == p).unwrap() as u8 }
fn look(t: &Table, s: u8, a: u32, b: u32, p: u8) -> Option<(u128, u128)> { t.get(&(s, a.min(b), a.max(b), p)).map(|x| if a < b { *x } else { (x.1, x.0) }) }
pub struct Prices;
impl AggregatedPriceOracle<u32, u32, Ratio> for Prices {
	type Error = OracleError;
	fn get_price(a: u32, b: u32, p: OraclePeriod, s: Source) -> Result<(Ratio, u32), OracleError> {
		if a == b { return Err(OracleError::SameAsset) }
		let s = SRC.iter().position(|x| *x == s).ok_or(OracleError::NotPresent)? as u8;
		WORLD.with(|w| look(&w.borrow().prices, s, a, b, per(p))).map(|x| (Ratio::new(x.0, x.1), 5)).ok_or(OracleError::NotPresent)
	}
	fn get_price_weight() -> frame_support::weights::Weight { Default::default() }
}
type OP = OraclePriceProvider<u32, Prices, Hub>;
fn trade(h: &Hop) -> Trade<u32> { Trade { pool: match h.0 { 0 => PoolType::Omnipool, 1 => PoolType::Stableswap(h.3), 2 => PoolType::XYK, _ => PoolType::LBP }, asset_in: h.1, asset_out: h.2 } }
pub struct Routes;
impl RouteProvider<u32> for Routes { fn get_route(p: AssetPair<u32>) -> Vec<Trade<u32>> { WORLD.with(|w| w.borrow().routes.get(&(p.asset_in, p.asset_out)).map(|r| r.iter().map(trade).collect())).unwrap_or(vec![trade(&(0, p.asset_in, p.asset_out, 0))]) } }
pub struct Accepted;
impl Contains<u32> for Accepted { fn contains(c: &u32) -> bool { WORLD.with(|w| w.borrow().accepted.contains(c)) } }
pub struct Fallback;
impl orml_traits::GetByKey<u32, Option<FixedU128>> for Fallback { fn get(c: &u32) -> Option<FixedU128> { WORLD.with(|w| w.borrow().fallback.get(c).copied()).map(FixedU128::from_inner) } }
pub struct Chosen;
impl AccountFeeCurrency<AccountId32> for Chosen { type AssetId = u32; fn get(w: &AccountId32) -> u32 { WORLD.with(|x| x.borrow().chosen.get(w).copied()).unwrap_or(NATIVE) } }
type ViaRoute = OraclePriceProviderUsingRoute<Routes, OP, Per>;
type Fee = AssetFeeOraclePriceProvider<Native, Accepted, Routes, OP, Fallback, Per>;
type Conv = ConvertAmount<ViaRoute>;
type Inspect = MultiInspectAdapter<AccountId32, u32, u128, Balances, Tokens, Native>;
type FeeBalance = FeeAssetBalanceInCurrency<Test, Conv, Chosen, Inspect>;

fn asset() -> BoxedStrategy<u32> { (0u32..5).boxed() }
fn hop() -> BoxedStrategy<Hop> { (prop_oneof![4 => Just(0u8), 3 => Just(1), 3 => Just(2), 1 => Just(3)], asset(), asset(), 2u32..5).boxed() }
/// mostly connected, like a real route
fn route(a: Option<(u32, u32)>) -> BoxedStrategy<Vec<Hop>> {
	(proptest::collection::vec(hop(), 0..=5), prop::bool::weighted(0.9)).prop_map(move |(mut v, join)| {
		if join { for i in 1..v.len() { v[i].1 = v[i - 1].2; } }
		if let (Some((x, y)), true) = (a, join) { if let Some(h) = v.first_mut() { h.1 = x } if let Some(h) = v.last_mut() { h.2 = y } }
		v
	}).boxed()
}
fn price() -> BoxedStrategy<(u128, u128)> { prop_oneof![4 => (mag(1 << 20, 1 << 90), mag(1 << 20, 1 << 90)), 3 => (mag(1 << 100, u128::MAX), mag(1 << 100, u128::MAX)), 2 => (1u128..1000, 1u128..1000), 1 => (mag(1, u128::MAX), mag(1, u128::MAX))].boxed() }
type Price = (u128, u128);
/// everything known at one period, and something else at another
fn table() -> BoxedStrategy<(Vec<Option<Price>>, Vec<Price>, u8, u8)> {
	(proptest::collection::vec(prop::option::weighted(0.93, price()), 30), proptest::collection::vec(price(), 30), 0u8..6, 1u8..6).prop_map(|(a, c, p, d)| (a, c, p, (p + d) % 6)).boxed()
}
fn fill(t: &(Vec<Option<Price>>, Vec<Price>, u8, u8)) -> Table {
	let mut r = Table::new();
	let mut i = 0;
	for s in 0..3u8 { for a in 0..5u32 { for b in a + 1..5 { if let Some(p) = t.0[i % 30] { r.insert((s, a, b, t.2), p); } r.insert((s, a, b, t.3), t.1[i % 30]); i += 1; } } }
	r
}
/// the legs of a route as (source, from, to); none for a venue without an oracle
fn legs(r: &[Hop]) -> Option<Vec<(u8, u32, u32)>> {
	let mut v = vec![];
	for h in r { match h.0 { 0 => { v.push((0, h.1, HUB)); v.push((0, HUB, h.2)) } 1 => { v.push((1, h.1, h.3)); v.push((1, h.3, h.2)) } 2 => v.push((2, h.1, h.2)), _ => return None } }
	if v.is_empty() { None } else { Some(v) }
}
fn gcd(mut a: u128, mut b: u128) -> u128 { while b != 0 { (a, b) = (b, a % b) } a }
fn bits(x: U1024) -> usize { 1024 - x.leading_zeros() as usize }
/// Exact product of the leg prices as far as it can be told apart; `None` when a leg is unknown.
enum Want { Nothing, Is(U1024, U1024), Unsure }
fn want(t: &Table, r: &[Hop], p: u8) -> Want {
	let Some(l) = legs(r) else { return Want::Nothing };
	let mut v = vec![];
	for (s, a, c) in l { if a == c { continue } let Some(x) = look(t, s, a, c, p) else { return Want::Nothing }; v.push(x) }
	// ten factors of 128 bits: cancel before multiplying
	for i in 0..v.len() { for j in 0..v.len() { let g = gcd(v[i].0, v[j].1); if g > 1 { v[i].0 /= g; v[j].1 /= g; } } }
	let bn: u32 = v.iter().map(|x| 128 - x.0.leading_zeros()).sum();
	let bd: u32 = v.iter().map(|x| 128 - x.1.leading_zeros()).sum();
	if bn > 1000 || bd > 1000 { return Want::Unsure }
	Want::Is(v.iter().fold(b(1), |x, y| x * b(y.0)), v.iter().fold(b(1), |x, y| x * b(y.1)))
}
/// `got` represents n/d up to the rounding of at most `k` roundings to 128-bit parts
fn close(n: U1024, d: U1024, got: (u128, u128), k: u32) -> Res {
	// the smallest part any rounding on the way can have had: bounded below when everything stays balanced
	let (bn, bd) = (bits(n), bits(d));
	let imbalance = bn.abs_diff(bd);
	if imbalance > 60 { return Ok(()) }
	must!(got.0 != 0 && got.1 != 0, "price {}/{}, must be {n}/{d}", got.0, got.1);
	let (l, r) = (small512(n, got.1), small512(d, got.0));
	let (Some(l), Some(r)) = (l, r) else { return Ok(()) };
	let e = diff(l, r);
	// relative error below k * 2^-60
	if e << 60 > r.max(l) * b(k as u128) { return Err(format!("price {}/{}, must be {n}/{d}", got.0, got.1)) }
	Ok(())
}
fn small512(x: U1024, y: u128) -> Option<U1024> { if bits(x) > 800 { None } else { Some(x * b(y)) } }
/// no prefix of the product leaves the range in which rounding is negligible
fn balanced(t: &Table, r: &[Hop], p: u8) -> bool {
	let Some(l) = legs(r) else { return false };
	let mut sum = 0i64;
	l.iter().all(|(s, a, c)| a == c || look(t, *s, *a, *c, p).map_or(false, |x| { sum += x.1.leading_zeros() as i64 - x.0.leading_zeros() as i64; sum.abs() <= 50 })) && l.into_iter().all(|(s, a, c)| a == c || look(t, s, a, c, p).map_or(false, |x| (128 - x.0.leading_zeros()).abs_diff(128 - x.1.leading_zeros()) <= 30 ))
}
fn judge(t: &Table, r: &[Hop], p: u8, got: Option<Ratio>, m: &mut Meter) -> Res {
	match (want(t, r, p), got) {
		(Want::Nothing, None) => { m.label("no price"); Ok(()) }
		(Want::Nothing, Some(g)) => Err(format!("price {g:?} for {r:?} although a part of it is unknown")),
		(Want::Unsure, _) => { m.label("too large to judge"); Ok(()) }
		(Want::Is(n, d), None) => if r.len() <= 4 || (bits(n) < 380 && bits(d) < 380 && r.len() <= 3) { Err(format!("no price for {r:?}, must be {n}/{d}")) } else { m.label("out of range"); Ok(()) },
		(Want::Is(n, d), Some(g)) => {
			if balanced(t, r, p) { m.nontrivial(); close(n, d, (g.n, g.d), 20)?; } else if r.len() == 1 && bits(n) <= 128 && bits(d) <= 128 && b(g.n) * d != b(g.d) * n { 
				// an unbalanced product that needs no rounding unless the parts before cancelling were longer
				let l = legs(r).unwrap().into_iter().filter(|x| x.1 != x.2).filter_map(|x| look(t, x.0, x.1, x.2, p)).fold((0, 0), |z, x| (z.0 + 128 - x.0.leading_zeros(), z.1 + 128 - x.1.leading_zeros()));
				must!(l.0 > 128 || l.1 > 128, "price {g:?} for {r:?}, must be {n}/{d}");
			}
			m.label("priced");
			Ok(())
		}
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C1 { t: (Vec<Option<Price>>, Vec<Price>, u8, u8), r: Vec<Hop> }
fn run1(c: &C1, m: &mut Meter) -> Res {
	let t = fill(&c.t);
	WORLD.with(|w| *w.borrow_mut() = World { prices: t.clone(), ..Default::default() });
	let r: Vec<_> = c.r.iter().map(trade).collect();
	let got = no_panic(|| OP::price(&r, PERIODS[c.t.2 as usize]))?;
	judge(&t, &c.r, c.t.2, got, m)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C2 { t: (Vec<Option<Price>>, Vec<Price>, u8, u8), routes: Vec<(u32, u32, Vec<Hop>)>, accepted: Vec<u32>, fallback: Vec<(u32, u128)>, ask: (u32, u32), x: u128 }
fn run2(c: &C2, m: &mut Meter) -> Res {
	let t = fill(&c.t);
	let w = World { prices: t.clone(), period: c.t.2, routes: c.routes.iter().map(|r| ((r.0, r.1), r.2.clone())).collect(), accepted: c.accepted.clone(), fallback: c.fallback.iter().copied().collect(), ..Default::default() };
	WORLD.with(|x| *x.borrow_mut() = w.clone());
	let known = |a: u32, b: u32| w.routes.get(&(a, b)).cloned().unwrap_or(vec![(0, a, b, 0)]);
	// the price of a currency in units of the native one
	for cur in 0..5u32 {
		let got = no_panic(|| Fee::price(cur))?;
		if cur == NATIVE { must!(got.map_or(false, |p| p.n == p.d && p.n > 0), "native currency has price {got:?}"); continue }
		if !c.accepted.contains(&cur) { must!(got.is_none(), "currency {cur} is not accepted but has price {got:?}"); continue }
		let r = known(cur, NATIVE);
		match (want(&t, &r, c.t.2), w.fallback.get(&cur)) {
			(Want::Nothing, None) => must!(got.is_none(), "currency {cur} has price {got:?} without an oracle or a fallback"),
			(Want::Nothing, Some(f)) => { m.nontrivial(); m.label("fallback"); let Some(g) = got else { return Err(format!("currency {cur} has no price, must have its fallback {f}")) }; must!(b(g.n) * b(1_000_000_000_000_000_000) == b(g.d) * b(*f), "currency {cur}: price {g:?}, must be its fallback {f}"); }
			(Want::Is(..), Some(_)) if got.is_none() => return Err(format!("currency {cur} has no price")),
			(Want::Is(..), _) if r.len() > 4 => m.label("long"),
			(Want::Is(..), _) => judge(&t, &r, c.t.2, got, m)?,
			(Want::Unsure, _) => {}
		}
	}
	// conversion of an amount
	let (from, to) = c.ask;
	let p = no_panic(|| <ViaRoute as PriceProvider<u32>>::get_price(to, from))?;
	judge(&t, &known(to, from), c.t.2, p, m)?;
	let got = no_panic(|| Conv::convert((from, to, c.x)))?;
	if from == to { must!(got.map_or(false, |g| g.0 == c.x && g.1.n == g.1.d), "{} of {from} in itself: {got:?}", c.x) } else {
		let w = p.and_then(|p| md_up(c.x, p.n, p.d).map(|y| (y, p)));
		must!(got.map(|g| (g.0, g.1.n, g.1.d)) == w.map(|g| (g.0, g.1.n, g.1.d)), "{} of {from} in {to}: {got:?}, must be {w:?}", c.x);
		if w.is_some() { m.label("converted") }
	}
	Ok(())
}

// ---- balances, locks
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C3 { t: (Vec<Option<Price>>, Vec<Price>, u8, u8), bal: Vec<u128>, locks: Vec<(u8, u32, u8, u128)>, chosen: Vec<u32>, to: u32, x: A, bits: u8 }
const LOCKS: [LockIdentifier; 3] = [orml_vesting::VESTING_LOCK_ID, *b"lbpcllct", *b"stk_stks"];
fn run3(c: &C3, m: &mut Meter) -> Res {
	fresh(frame_system::GenesisConfig::<Test>::default().build_storage().unwrap(), || {
		System::set_block_number(1);
		let t = fill(&c.t);
		WORLD.with(|x| *x.borrow_mut() = World { prices: t, period: c.t.2, chosen: c.chosen.iter().enumerate().map(|(i, k)| (acc(i as u8), *k)).collect(), ..Default::default() });
		let give = |a: u32, i: u8, v: u128| if a == NATIVE { let _ = <Balances as fungible::Mutate<_>>::mint_into(&acc(i), v); } else { let _ = <Tokens as MultiCurrency<_>>::deposit(a, &acc(i), v); };
		for i in 0..3u8 { for a in 0..5u32 { give(a, i, c.bal[(i as usize * 5 + a as usize) % c.bal.len()]); } }
		let mut locked: BTreeMap<(u8, u32, u8), u128> = BTreeMap::new();
		for (i, a, l, v) in &c.locks {
			if *a == NATIVE { Balances::set_lock(LOCKS[*l as usize], &acc(*i), *v, WithdrawReasons::all()) } else { Tokens::set_lock(LOCKS[*l as usize], *a, &acc(*i), *v).map_err(|e| format!("lock: {e:?}"))?; }
			if *v > 0 { locked.insert((*i, *a, *l), *v); } else { locked.remove(&(*i, *a, *l)); }
		}
		for i in 0..3u8 {
			let w = acc(i);
			must!(<VestingInfo<Test> as VestingDetails<AccountId32, u128>>::locked(w.clone()) == locked.get(&(i, NATIVE, 0)).copied().unwrap_or(0), "vesting lock of {i}");
			for a in 0..5u32 {
				for l in 0..3u8 {
					let (g, k) = (Locks::get_by_lock(LOCKS[l as usize], a, w.clone()), locked.get(&(i, a, l)).copied().unwrap_or(0));
					must!(g == k, "lock {l} of {i} in {a}: {g}, must be {k}");
					if k > 0 { m.nontrivial(); }
				}
				let (pres, force, prov) = ([Preservation::Expendable, Preservation::Protect, Preservation::Preserve][c.bits as usize % 3], if c.bits & 4 > 0 { Fortitude::Force } else { Fortitude::Polite }, if c.bits & 8 > 0 { Provenance::Minted } else { Provenance::Extant });
				type I = Inspect;
				use fungibles::Inspect as F;
				use fungible::Inspect as N;
				type B = Balances;
				type T = Tokens;
				macro_rules! same { ($($f:ident($($x:expr),*)),*) => { $( let (g, k) = if a == NATIVE { (format!("{:?}", <I as F<AccountId32>>::$f(a, $($x),*)), format!("{:?}", <B as N<AccountId32>>::$f($($x),*))) } else { (format!("{:?}", <I as F<AccountId32>>::$f(a, $($x),*)), format!("{:?}", <T as F<AccountId32>>::$f(a, $($x),*))) }; must!(g == k, "{} of {i} in {a}: {g}, must be {k}", stringify!($f)); )* } }
				let free = if a == NATIVE { Balances::free_balance(&w) } else { Tokens::free_balance(a, &w) };
				let x = c.x.of(free);
				same!(total_issuance(), minimum_balance(), total_balance(&w), balance(&w), reducible_balance(&w, pres, force), can_deposit(&w, x, prov), can_withdraw(&w, x));
				must!(<I as F<AccountId32>>::asset_exists(a) == (a == NATIVE || <T as F<AccountId32>>::asset_exists(a)), "existence of {a}");
			}
			let from = c.chosen[i as usize];
			let have = if from == NATIVE { <Balances as fungible::Inspect<_>>::reducible_balance(&w, Preservation::Preserve, Fortitude::Polite) } else { <Tokens as fungibles::Inspect<_>>::reducible_balance(from, &w, Preservation::Preserve, Fortitude::Polite) };
			let want = if from == c.to { have } else { <ViaRoute as PriceProvider<u32>>::get_price(c.to, from).and_then(|p| md_up(have, p.n, p.d)).unwrap_or(0) };
			let got = no_panic(|| <FeeBalance as AccountFeeCurrencyBalanceInCurrency<u32, AccountId32>>::get_balance_in_currency(c.to, &w))?.0;
			must!(got == want, "what {i} holds of {from} is worth {got} of {}, must be {want}", c.to);
			if want > 0 && from != c.to { m.label("worth something in another currency") }
		}
		Ok(())
	})
}
// ---- which pools may be created
pub struct Kinds;
impl hydradx_traits::registry::Inspect for Kinds {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(_: AssetId) -> bool { true }
	fn exists(a: AssetId) -> bool { Self::asset_type(a).is_some() }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(a: AssetId) -> Option<AssetKind> { WORLD.with(|w| w.borrow().kinds.get(&a).copied()).and_then(|k| [Some(AssetKind::Token), Some(AssetKind::XYK), Some(AssetKind::StableSwap), Some(AssetKind::Bond), Some(AssetKind::External), None][k as usize]) }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C4 { kinds: Vec<u8>, sales: Vec<(u32, u32, Option<u64>, Option<u64>)>, now: u64 }
fn run4(c: &C4, m: &mut Meter) -> Res {
	fresh(frame_system::GenesisConfig::<Test>::default().build_storage().unwrap(), || {
		System::set_block_number(c.now);
		WORLD.with(|x| *x.borrow_mut() = World { kinds: c.kinds.iter().enumerate().map(|(i, k)| (i as u32, *k)).collect(), ..Default::default() });
		for (a, z, start, end) in &c.sales {
			if a == z { continue }
			pallet_lbp::PoolData::<Test>::insert(pool_of(*a, *z), pallet_lbp::Pool { owner: acc(1), start: *start, end: *end, assets: (*a, *z), initial_weight: 50_000_000, final_weight: 50_000_000, weight_curve: WeightCurveType::Linear, fee: (2, 1000), fee_collector: acc(2), repay_target: 0 });
		}
		for a in 0..6u32 { for z in 0..6u32 {
			if a == z { continue }
			// as the registry knows them: nothing about asset 5
			let plain = |x: u32| c.kinds.get(x as usize).map_or(false, |k| *k != 1 && *k != 5);
			let sale = c.sales.iter().rev().find(|s| s.0 != s.1 && (s.0.min(s.1), s.0.max(s.1)) == (a.min(z), a.max(z)));
			let over = sale.map_or(true, |s| s.3.map_or(false, |e| e < c.now));
			let want = plain(a) && plain(z) && over;
			let got = no_panic(|| <AllowPoolCreation<Test, Kinds> as CanCreatePool<u32>>::can_create(a, z))?;
			must!(got == want, "a pool of {a} and {z} may be created: {got}, must be {want}");
			if sale.is_some() && plain(a) && plain(z) { m.nontrivial(); m.label(if over { "sale over" } else { "sale on" }) }
		} }
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).expect("property");
	let mut c = Ctx::new(&id);
	c.assume("prices come from a table keyed by source, pair and period, symmetric under inversion; it also holds other prices for another period");
	if id == "C46" {
	c.check("price along a route", "routes of up to five hops over all venues; non-trivial: every leg has a price with parts of similar size, so that the exact product decides", 60_000, 1_500_000, || (table(), route(None)).prop_map(|(t, r)| C1 { t, r }), run1);
	let pair = || (asset(), asset());
	c.check("price of a fee currency and conversion", "stored and default routes, accepted currencies and fallback prices; non-trivial: a fallback was used or a route was priced", 40_000, 1_000_000, move || (table(), proptest::collection::vec(pair().prop_flat_map(|p| route(Some(p)).prop_map(move |r| (p.0, p.1, r))), 0..6), proptest::collection::vec(asset(), 0..5), proptest::collection::vec((asset(), mag(0, u128::MAX)), 0..5), pair(), mag(0, u128::MAX)).prop_map(|(t, routes, accepted, fallback, ask, x)| C2 { t, routes, accepted, fallback, ask, x }), run2);
	} else {
	let bal = || prop_oneof![1 => Just(0u128), 5 => mag(1, 1 << 100), 1 => 1u128..20];
	c.check("balances and locks of both kinds of currency", "free balances, locks and existential deposits of native and other currencies; non-trivial: some lock is in force", 10_000, 300_000, move || (table(), proptest::collection::vec(bal(), 15), proptest::collection::vec((0u8..3, asset(), 0u8..3, bal()), 0..8), proptest::collection::vec(asset(), 3), asset(), amt(), any::<u8>()).prop_map(|(t, bal, locks, chosen, to, x, bits)| C3 { t, bal, locks, chosen, to, x, bits }), run3);
	let sale = || (0u32..5, 0u32..5, prop::option::of(0u64..100), prop::option::weighted(0.8, 0u64..100));
	c.check("pool creation", "assets of every kind and liquidity bootstrapping sales in every phase; non-trivial: two plain assets with a sale", 20_000, 500_000, move || (proptest::collection::vec(prop_oneof![3 => Just(0u8), 4 => 0u8..6], 5), proptest::collection::vec(sale(), 0..8), 1u64..100).prop_map(|(kinds, sales, now)| C4 { kinds, sales, now }), run4);
	}
	std::process::exit(c.finish());
}
