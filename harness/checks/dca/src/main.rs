use frame_support::storage::with_storage_layer;
use frame_support::traits::{Contains, Hooks};
use frame_support::weights::{Weight, WeightToFee};
use frame_system::RawOrigin;
use hydra_dx_math::ratio::Ratio;
use hydradx_traits::router::{AmmTradeWeights, AmountInAndOut, AssetPair, PoolType, RouteProvider, RouterT, Trade};
use hydradx_traits::{NativePriceOracle, OraclePeriod, PriceOracle};
use kit::*;
use orml_traits::NamedMultiReservableCurrency;
use pallet_dca::types::{Order, Schedule};
use pallet_dca::{Error as Er, Event as E};
use sp_runtime::{ArithmeticError, BoundedVec};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, DCA: pallet_dca });
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { max_diff: u32, per_block: u32, retries: u8, min_trade: u128, min_budget: u128, fee: u32, hash: Option<u64> }
type Pair = (AssetId, AssetId);
#[derive(Clone, Debug, Default)]
struct World { rate: BTreeMap<Pair, (u128, u128)>, last: BTreeMap<Pair, Option<(u128, u128)>>, short: BTreeMap<Pair, Option<(u128, u128)>>, native: BTreeMap<AssetId, Option<(u128, u128)>>, fault: BTreeMap<Pair, u8>, hash: Option<u64>, fee: u32, short_default_routes: bool }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn cfg() -> Cfg { CFG.with(|c| c.borrow().clone()) }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut *w.borrow_mut())) }
const NATIVE: AssetId = 0;
const ASSETS: [AssetId; 3] = [0, 1, 2];
const MARKET: u64 = 50;
const FEES: u64 = 9;
const TECH: u64 = 8;
const DCA_RESERVE: [u8; 8] = *b"dcaorder";
const OTHER: [u8; 8] = *b"other___";

fn key(a: AssetId, c: AssetId) -> (Pair, bool) { if a < c { ((a, c), false) } else { ((c, a), true) } }
fn flip(r: (u128, u128), f: bool) -> (u128, u128) { if f { (r.1, r.0) } else { r } }
/// what one unit of `a` buys of `c` on the market
fn rate(a: AssetId, c: AssetId) -> (u128, u128) { let (k, f) = key(a, c); flip(world(|w| w.rate.get(&k).copied().unwrap_or((1, 1))), f) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum When { Quote, Trade }
fn fault(a: AssetId, c: AssetId, when: When) -> DispatchResult {
	match (world(|w| w.fault.get(&key(a, c).0).copied().unwrap_or(0)), when) {
		(1, When::Quote) | (2, When::Trade) => Err(DispatchError::Unavailable),
		(3, When::Quote) | (4, When::Trade) => Err(DispatchError::Exhausted),
		_ => Ok(()),
	}
}
type T3 = Trade<AssetId>;
fn quote_sell(route: &[T3], x: u128) -> Result<Vec<(u128, u128)>, DispatchError> {
	let (mut v, mut x) = (vec![], x);
	for t in route {
		fault(t.asset_in, t.asset_out, When::Quote)?;
		let (n, d) = rate(t.asset_in, t.asset_out);
		let y = md(x, n, d).ok_or(ArithmeticError::Overflow)?;
		v.push((x, y));
		x = y;
	}
	Ok(v)
}
/// computed from the last trade to the first
fn quote_buy(route: &[T3], y: u128) -> Result<Vec<(u128, u128)>, DispatchError> {
	let (mut v, mut y) = (vec![], y);
	for t in route.iter().rev() {
		fault(t.asset_in, t.asset_out, When::Quote)?;
		let (n, d) = rate(t.asset_in, t.asset_out);
		let x = md_up(y, d, n).ok_or(ArithmeticError::Overflow)?;
		v.push((x, y));
		y = x;
	}
	Ok(v)
}
pub struct Router;
impl RouterT<RuntimeOrigin, AssetId, u128, T3, AmountInAndOut<u128>> for Router {
	fn sell(o: RuntimeOrigin, a: AssetId, c: AssetId, x: u128, min: u128, route: Vec<T3>) -> DispatchResult {
		with_storage_layer(|| {
			let w = frame_system::ensure_signed(o)?;
			if route.first().map(|t| t.asset_in) != Some(a) || route.last().map(|t| t.asset_out) != Some(c) { return Err("route".into()) }
			let q = quote_sell(&route, x)?;
			for t in &route { fault(t.asset_in, t.asset_out, When::Trade)?; }
			let y = q.last().unwrap().1;
			if y < min { return Err("limit".into()) }
			<Tokens as MultiCurrency<u64>>::transfer(a, &w, &MARKET, x)?;
			<Tokens as MultiCurrency<u64>>::transfer(c, &MARKET, &w, y)
		})
	}
	fn buy(o: RuntimeOrigin, a: AssetId, c: AssetId, y: u128, max: u128, route: Vec<T3>) -> DispatchResult {
		with_storage_layer(|| {
			let w = frame_system::ensure_signed(o)?;
			if route.first().map(|t| t.asset_in) != Some(a) || route.last().map(|t| t.asset_out) != Some(c) { return Err("route".into()) }
			let q = quote_buy(&route, y)?;
			for t in &route { fault(t.asset_in, t.asset_out, When::Trade)?; }
			let x = q.last().unwrap().0;
			if x > max { return Err("limit".into()) }
			<Tokens as MultiCurrency<u64>>::transfer(a, &w, &MARKET, x)?;
			<Tokens as MultiCurrency<u64>>::transfer(c, &MARKET, &w, y)
		})
	}
	fn calculate_sell_trade_amounts(route: &[T3], x: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { Ok(quote_sell(route, x)?.into_iter().map(|(amount_in, amount_out)| AmountInAndOut { amount_in, amount_out }).collect()) }
	fn calculate_buy_trade_amounts(route: &[T3], y: u128) -> Result<Vec<AmountInAndOut<u128>>, DispatchError> { Ok(quote_buy(route, y)?.into_iter().map(|(amount_in, amount_out)| AmountInAndOut { amount_in, amount_out }).collect()) }
	fn set_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<T3>) -> frame_support::dispatch::DispatchResultWithPostInfo { Ok(().into()) }
	fn force_insert_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<T3>) -> frame_support::dispatch::DispatchResultWithPostInfo { Ok(().into()) }
}
fn hop(a: AssetId, c: AssetId) -> T3 { Trade { pool: PoolType::Omnipool, asset_in: a, asset_out: c } }
pub struct Routes;
impl RouteProvider<AssetId> for Routes {
	fn get_route(p: AssetPair<AssetId>) -> Vec<T3> {
		// one of the pairs is traded through a third asset
		if world(|w| w.short_default_routes) || p.asset_in + p.asset_out != 3 { vec![hop(p.asset_in, p.asset_out)] } else { vec![hop(p.asset_in, 0), hop(0, p.asset_out)] }
	}
}
pub struct Oracle;
/// amount of the first asset per unit of the last
fn oracle(route: &[T3], last: bool) -> Option<(u128, u128)> {
	let mut r = (1u128, 1u128);
	for t in route {
		let (k, f) = key(t.asset_in, t.asset_out);
		let p = flip(world(|w| if last { w.last.get(&k).copied() } else { w.short.get(&k).copied() }).unwrap_or(Some((1, 1)))?, f);
		r = (r.0 * p.1, r.1 * p.0);
	}
	Some(r)
}
impl PriceOracle<AssetId> for Oracle {
	type Price = Ratio;
	fn price(route: &[T3], p: OraclePeriod) -> Option<Ratio> { match p { OraclePeriod::LastBlock => oracle(route, true), OraclePeriod::Short => oracle(route, false), _ => None }.map(|(n, d)| Ratio::new(n, d)) }
}
pub struct NativeOracle;
fn native(a: AssetId) -> Option<(u128, u128)> { world(|w| w.native.get(&a).copied().unwrap_or(Some((1, 1)))) }
impl NativePriceOracle<AssetId, Ratio> for NativeOracle { fn price(a: AssetId) -> Option<Ratio> { native(a).map(|(n, d)| Ratio::new(n, d)) } }
pub struct W;
fn wt(x: u64) -> Weight { Weight::from_parts(x, 0) }
impl pallet_dca::WeightInfo for W {
	fn on_initialize_with_buy_trade() -> Weight { wt(70) }
	fn on_initialize_with_sell_trade() -> Weight { wt(50) }
	fn on_initialize_with_empty_block() -> Weight { wt(7) }
	fn schedule() -> Weight { wt(1) }
	fn terminate() -> Weight { wt(1) }
}
impl AmmTradeWeights<T3> for W {
	fn sell_weight(_: &[T3]) -> Weight { wt(1_000_000) }
	fn buy_weight(_: &[T3]) -> Weight { wt(2_000_000) }
	fn calculate_buy_trade_amounts_weight(_: &[T3]) -> Weight { wt(4_000_000) }
	fn sell_and_calculate_sell_trade_amounts_weight(r: &[T3]) -> Weight { wt(10 * r.len() as u64) }
	fn buy_and_calculate_buy_trade_amounts_weight(r: &[T3]) -> Weight { wt(13 * r.len() as u64) }
	fn set_route_weight(_: &[T3]) -> Weight { wt(1_000_000) }
	fn force_insert_route_weight() -> Weight { wt(1_000_000) }
	fn get_route_weight() -> Weight { wt(1_000_000) }
	fn calculate_spot_price_with_fee_weight(_: &[T3]) -> Weight { wt(1_000_000) }
}
pub struct ToFee;
impl WeightToFee for ToFee { type Balance = u128; fn weight_to_fee(w: &Weight) -> u128 { w.ref_time() as u128 * world(|w| w.fee) as u128 } }
pub struct Retry;
impl Contains<DispatchError> for Retry { fn contains(e: &DispatchError) -> bool { *e == DispatchError::Exhausted } }
pub struct Hash;
impl hydradx_adapters::RelayChainBlockHashProvider for Hash { fn parent_hash() -> Option<sp_core::H256> { world(|w| w.hash).map(sp_core::H256::from_low_u64_le).map(|h| { let mut x = h; x.0.reverse(); x.0.rotate_left(0); x }) } }
pub struct Tech;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Tech {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(RawOrigin::Signed(TECH)) => Ok(()), _ => Err(o) } }
}
parameter_types! {
	pub MaxDiff: Permill = Permill::from_parts(cfg().max_diff);
	pub PerBlock: u32 = cfg().per_block;
	pub Retries: u8 = cfg().retries;
	pub MinTrade: u128 = cfg().min_trade;
	pub MinBudget: u128 = cfg().min_budget;
	pub const Named: [u8; 8] = DCA_RESERVE;
}
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
impl pallet_dca::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type TechnicalOrigin = Tech;
	type Currencies = Tokens;
	type RelayChainBlockHashProvider = Hash;
	type RandomnessProvider = DCA;
	type OraclePriceProvider = Oracle;
	type NativePriceOracle = NativeOracle;
	type RouteExecutor = Router;
	type RouteProvider = Routes;
	type RetryOnError = Retry;
	type MaxPriceDifferenceBetweenBlocks = MaxDiff;
	type MaxSchedulePerBlock = PerBlock;
	type MaxNumberOfRetriesOnError = Retries;
	type MinimumTradingLimit = MinTrade;
	type NativeAssetId = ConstU32<NATIVE>;
	type MinBudgetInNativeCurrency = MinBudget;
	type FeeReceiver = ConstU64<FEES>;
	type NamedReserveId = Named;
	type WeightToFee = ToFee;
	type AmmTradeWeights = W;
	type WeightInfo = W;
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Size { Part(u32), Fee(i8), MinTrade(i8), Whole(i8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan { who: u64, signer: Option<u64>, buy: bool, a: AssetId, c: AssetId, hops: u8, total: A, of_min: bool, size: Size, limit: Lim, period: u8, retries: Option<u8>, stable: Option<u32>, slip: Option<u32>, start: Option<i8> }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Schedule(Plan),
	Terminate { who: Option<u64>, id: u8, block: Option<i8> },
	Blocks { n: u8 },
	Rate { a: AssetId, c: AssetId, p: i32, oracle: u8, q: i32 },
	NoOracle { a: AssetId, c: AssetId, last: bool, back: bool },
	Native { a: AssetId, p: Option<(u128, u128)> },
	Fault { a: AssetId, c: AssetId, f: u8 },
	Hash { h: Option<u64> },
	FeeRate { f: u32 },
	DefaultRoutes { short: bool },
	Lock { who: u64, a: AssetId, x: A },
	Reserve { who: u64, a: AssetId, x: A },
	Send { who: u64, to: u64, a: AssetId, x: A },
}
fn who() -> impl Strategy<Value = u64> { 1u64..=3 }
fn pair() -> impl Strategy<Value = Pair> { prop::sample::select(vec![(0u32, 1u32), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)]) }
fn plan() -> impl Strategy<Value = Plan> {
	((who(), prop::option::weighted(0.03, who()), any::<bool>(), pair(), 0u8..4, prop_oneof![5 => (0u32..=200_000).prop_map(A::Part), 1 => amt()], prop::bool::weighted(0.15)),
		(prop_oneof![10 => (10_000u32..=600_000).prop_map(Size::Part), 2 => (-1i8..=1).prop_map(Size::Fee), 2 => (-1i8..=1).prop_map(Size::MinTrade), 2 => (-1i8..=1).prop_map(Size::Whole)], lim(), prop_oneof![8 => 1u8..6, 1 => 0u8..12], prop::option::weighted(0.5, prop_oneof![9 => 0u8..5, 1 => Just(40u8)]), prop::option::weighted(0.4, 0u32..=1_000_000), prop::option::weighted(0.4, prop_oneof![0u32..=100_000, 0u32..=1_000_000]), prop::option::weighted(0.5, prop_oneof![8 => 1i8..6, 1 => -1i8..=1])))
		.prop_map(|((who, signer, buy, (a, c), hops, total, of_min), (size, limit, period, retries, stable, slip, start))| Plan { who, signer, buy, a, c, hops, total, of_min, size, limit, period, retries, stable, slip, start })
}
fn pert() -> impl Strategy<Value = i32> { prop_oneof![3 => Just(0i32), 4 => -20_000i32..=20_000, 3 => -100_000i32..=100_000, 1 => -999_999i32..=3_000_000] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		6 => plan().prop_map(Op::Schedule),
		3 => (prop::option::weighted(0.3, prop_oneof![who(), Just(TECH)]), 0u8..7, prop_oneof![8 => Just(None), 1 => (0i8..5).prop_map(Some)]).prop_map(|(who, id, block)| Op::Terminate { who, id, block }),
		9 => prop_oneof![4 => 1u8..4, 2 => 1u8..30, 1 => any::<u8>()].prop_map(|n| Op::Blocks { n }),
		3 => (pair(), pert(), 0u8..4, pert()).prop_map(|((a, c), p, oracle, q)| Op::Rate { a, c, p, oracle, q }),
		1 => (pair(), any::<bool>(), prop::bool::weighted(0.7)).prop_map(|((a, c), last, back)| Op::NoOracle { a, c, last, back }),
		1 => (1u32..3, prop::option::weighted(0.8, (mag(1, 1 << 20), mag(1, 1 << 20)))).prop_map(|(a, p)| Op::Native { a, p }),
		2 => (pair(), prop_oneof![3 => Just(0u8), 4 => 1u8..5]).prop_map(|((a, c), f)| Op::Fault { a, c, f }),
		1 => prop::option::weighted(0.7, any::<u64>()).prop_map(|h| Op::Hash { h }),
		1 => prop_oneof![0u32..10, mag(0, 1 << 20).prop_map(|x| x as u32)].prop_map(|f| Op::FeeRate { f }),
		1 => any::<bool>().prop_map(|short| Op::DefaultRoutes { short }),
		1 => (who(), 0u32..3, amt()).prop_map(|(who, a, x)| Op::Lock { who, a, x }),
		1 => (who(), 0u32..3, amt()).prop_map(|(who, a, x)| Op::Reserve { who, a, x }),
		1 => (who(), who(), 0u32..3, amt()).prop_map(|(who, to, a, x)| Op::Send { who, to, a, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, rates: [(u32, u32); 3], ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((prop_oneof![3 => 10_000u32..=300_000, 1 => 0u32..=1_000_000], prop_oneof![4 => 1u32..3, 1 => 3u32..10], prop_oneof![5 => 0u8..5, 1 => any::<u8>()], prop_oneof![Just(0u128), mag(1, 1 << 60)], prop_oneof![Just(0u128), mag(1, 1 << 70)], prop_oneof![0u32..5, mag(0, 1 << 20).prop_map(|x| x as u32)], prop::option::weighted(0.9, any::<u64>()))
		.prop_map(|(max_diff, per_block, retries, min_trade, min_budget, fee, hash)| Cfg { max_diff, per_block, retries, min_trade, min_budget, fee, hash }),
		prop::array::uniform3((1u32..1000, 1u32..1000)), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, rates, mut ops)| {
		let extra: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Schedule(_))).take(3).cloned().collect();
		for e in extra { ops.insert(0, e); }
		Case { cfg, rates, ops }
	})
}
type O = Order<AssetId>;
type S = Schedule<u64, AssetId, u64>;
fn buys(o: &O) -> bool { matches!(o, Order::Buy { .. }) }
fn route_of(o: &O) -> Vec<T3> { let r = match o { Order::Sell { route, .. } | Order::Buy { route, .. } => route.to_vec() }; if r.is_empty() { Routes::get_route(AssetPair::new(o.get_asset_in(), o.get_asset_out())) } else { r } }
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, sched: BTreeMap<u32, (S, u128, u8)>, blocks: BTreeMap<u64, BTreeSet<u32>>, next: u32, now: u64, frozen: BTreeMap<(u64, AssetId), u128>, other: BTreeMap<(u64, AssetId), u128> }
type R<T> = Result<T, DispatchError>;
fn er(e: Er<Test>) -> DispatchError { e.into() }
fn over() -> DispatchError { ArithmeticError::Overflow.into() }
/// Events of the code still to be explained.
struct Trace { ev: std::collections::VecDeque<E<Test>> }
impl Trace {
	fn want(&mut self, e: E<Test>) -> Res { match self.ev.pop_front() { Some(g) if g == e => Ok(()), g => Err(format!("event {g:?}, expected {e:?}")) } }
	/// the block a schedule was planned for, if it was
	fn planned(&mut self) -> Option<(u32, u64, u64)> { if let Some(E::ExecutionPlanned { id, who, block }) = self.ev.front() { let r = (*id, *who, *block); self.ev.pop_front(); Some(r) } else { None } }
}
impl M {
	fn lock(&mut self) {
		let mut l = self.frozen.clone();
		for ((w, a), x) in &self.other { *l.entry((*w, *a)).or_insert(0) += x; }
		for (s, r, _) in self.sched.values() { *l.entry((s.owner, s.order.get_asset_in())).or_insert(0) += r; }
		self.l.locks = l.into_iter().filter(|x| x.1 > 0).collect();
	}
	fn reserved(&self, w: u64, a: AssetId) -> u128 { self.sched.values().filter(|s| s.0.owner == w && s.0.order.get_asset_in() == a).map(|s| s.1).sum() }
	fn in_native(&self, a: AssetId, x: u128) -> R<u128> { if a == NATIVE { return Ok(x) } let (n, d) = native(a).ok_or(er(Er::CalculatingPriceError))?; md_up(x, n, d).ok_or(over()) }
	fn weight(&self, o: &O) -> u64 { let n = route_of(o).len() as u64; if buys(o) { 70 + 13 * n } else { 50 + 10 * n } }
	fn fee(&self, o: &O) -> R<u128> { self.in_native(o.get_asset_in(), self.weight(o) as u128 * world(|w| w.fee) as u128) }
	fn cost(&self, o: &O) -> R<u128> { match o { Order::Sell { amount_in, .. } => Ok(*amount_in), Order::Buy { amount_out, .. } => Ok(quote_buy(&route_of(o), *amount_out)?.last().unwrap().0) } }
	/// where a schedule may be planned; second: whether all candidates may be taken
	fn candidates(&self, from: u64) -> (BTreeSet<u64>, bool) {
		let (mut ok, mut open) = (BTreeSet::new(), BTreeSet::from([from]));
		for i in 0..=10u32 {
			let mut nx = BTreeSet::new();
			for t in open {
				if (self.blocks.get(&t).map_or(0, |b| b.len()) as u32) < cfg().per_block { ok.insert(t); } else { for d in 1u64 << i..1u64 << (i + 1) { nx.insert(t + d); } }
			}
			open = nx;
			if open.is_empty() { break }
		}
		(ok, !open.is_empty())
	}
	/// Plan for the block or the next free one as chosen by the code.
	fn plan(&mut self, id: u32, from: u64, t: &mut Trace) -> Result<R<()>, String> {
		if from <= self.now { return Ok(Err(er(Er::BlockNumberIsNotInFuture))) }
		let (ok, full) = self.candidates(from);
		match t.planned() {
			Some((i, w, at)) => {
				if i != id || w != self.sched[&id].0.owner { return Err(format!("planned schedule {i} of {w}, expected {id}")) }
				if !ok.contains(&at) { return Err(format!("schedule {id} planned for block {at}, possible {ok:?}")) }
				self.blocks.entry(at).or_default().insert(id);
				Ok(Ok(()))
			}
			None if full => Ok(Err(er(Er::NoFreeBlockFound))),
			None => Err(format!("schedule {id} not planned, possible {ok:?}; next event {:?}", t.ev.front())),
		}
	}
	fn drop(&mut self, id: u32) { self.sched.remove(&id); self.lock(); }
	fn retry(&mut self, id: u32, t: &mut Trace) -> Result<R<()>, String> {
		let (s, _, n) = self.sched[&id].clone();
		if n >= s.max_retries.unwrap_or(cfg().retries) { return Ok(Err(er(Er::MaxRetryReached))) }
		self.sched.get_mut(&id).unwrap().2 += 1;
		if n >= 32 || 10u64 << n > u32::MAX as u64 { return Ok(Err(over())) }
		self.plan(id, self.now + (10u64 << n), t)
	}
	fn unstable(&self, s: &S) -> bool {
		let r = route_of(&s.order);
		let p = |last| oracle(&r, last).and_then(|(n, d)| md(n, 1_000_000_000_000_000_000, d));
		let (Some(a), Some(c)) = (p(true), p(false)) else { return true };
		let allowed = s.stability_threshold.map_or(cfg().max_diff, |x| x.deconstruct());
		2 * a.abs_diff(c) > md(a + c, allowed as u128, 1_000_000).unwrap()
	}
	fn trade(&mut self, id: u32) -> R<(u128, u128)> {
		let (s, rest, _) = self.sched[&id].clone();
		let o = &s.order;
		let (a, c) = (o.get_asset_in(), o.get_asset_out());
		let r = route_of(o);
		let slip = s.slippage.map_or(cfg().max_diff, |x| x.deconstruct()) as u128;
		let est = |r: &[T3], x: u128| -> R<u128> {
			let (n, d) = oracle(r, true).ok_or(er(Er::CalculatingPriceError))?;
			let p = md(n, 1_000_000_000_000_000_000, d).ok_or(over())?;
			md(p, x, 1_000_000_000_000_000_000).ok_or(over())
		};
		let (x, y) = match o {
			Order::Sell { amount_in, min_amount_out, .. } => {
				let x = rest.min(*amount_in);
				let e = est(&r.iter().rev().map(|t| hop(t.asset_out, t.asset_in)).collect::<Vec<_>>(), x)?;
				let floor = e - md(e, slip, 1_000_000).unwrap();
				let y = quote_sell(&r, x)?.last().unwrap().1;
				if *min_amount_out > floor { if y < *min_amount_out { return Err(er(Er::TradeLimitReached)) } } else if y < floor { return Err(er(Er::SlippageLimitReached)) }
				(x, y)
			}
			Order::Buy { amount_out, max_amount_in, .. } => {
				let x = quote_buy(&r, *amount_out)?.last().unwrap().0;
				if x > rest { return Err(er(Er::InvalidState)) }
				let e = est(&r, *amount_out)?;
				let cap = e.checked_add(md(e, slip, 1_000_000).unwrap()).ok_or(over())?;
				if *max_amount_in < cap { if x > *max_amount_in { return Err(er(Er::TradeLimitReached)) } } else if x > cap { return Err(er(Er::SlippageLimitReached)) }
				(x, *amount_out)
			}
		};
		for t in &r { fault(t.asset_in, t.asset_out, When::Trade)?; }
		self.sched.get_mut(&id).unwrap().1 -= x;
		self.lock();
		let low = DispatchError::Other("currency");
		self.l.mv(a, &s.owner, &MARKET, x).ok_or(low)?;
		self.l.mv(c, &MARKET, &s.owner, y).ok_or(low)?;
		Ok((x, y))
	}
	fn take_fee(&mut self, id: u32) -> R<()> {
		let (s, rest, _) = self.sched[&id].clone();
		let fee = self.fee(&s.order)?;
		if fee > rest { return Err(er(Er::InvalidState)) }
		self.sched.get_mut(&id).unwrap().1 -= fee;
		self.lock();
		self.l.mv(s.order.get_asset_in(), &s.owner, &FEES, fee).ok_or(DispatchError::Other("currency"))
	}
	/// One execution, explained by the events; failures of the currency are only known by kind.
	fn execute(&mut self, id: u32, t: &mut Trace, m: &mut Meter) -> Res {
		let (s, _, _) = self.sched[&id].clone();
		let who = s.owner;
		let same = |want: &DispatchError, got: &DispatchError| want == got || (*want == DispatchError::Other("currency") && !matches!(got, DispatchError::Other(_)));
		let mut try_fee = self.clone();
		let mut stop: Option<DispatchError> = None;
		match try_fee.take_fee(id) {
			Err(e) => stop = Some(e),
			Ok(()) => {
				*self = try_fee;
				if self.unstable(&s) {
					m.label("unstable");
					t.want(E::TradeFailed { id, who, error: er(Er::PriceUnstable) })?;
					match self.retry(id, t)? { Ok(()) => return Ok(()), Err(e) => stop = Some(e) }
				}
			}
		}
		if stop.is_none() {
			let mut tried = self.clone();
			match tried.trade(id) {
				Ok((amount_in, amount_out)) => {
					*self = tried;
					m.label(if buys(&s.order) { "bought" } else { "sold" });
					m.nontrivial();
					t.want(E::TradeExecuted { id, who, amount_in, amount_out })?;
					self.sched.get_mut(&id).unwrap().2 = 0;
					let rest = self.sched[&id].1;
					let more = (|| -> R<bool> {
						let fee = self.fee(&s.order)?;
						if b(rest) < b(fee) * b(20) || rest < cfg().min_trade { return Ok(false) }
						if buys(&s.order) && rest < self.cost(&s.order)?.checked_add(fee).ok_or(over())? { return Ok(false) }
						Ok(true)
					})();
					match more {
						Ok(false) => { m.label("completed"); self.drop(id); return t.want(E::Completed { id, who }) }
						Ok(true) => match self.plan(id, self.now + s.period, t)? { Ok(()) => return Ok(()), Err(e) => stop = Some(e) },
						Err(e) => stop = Some(e),
					}
				}
				Err(e) => {
					let got = match t.ev.pop_front() { Some(E::TradeFailed { id: i, who: w, error }) if i == id && w == who && same(&e, &error) => error, g => return Err(format!("event {g:?}, expected failure of {id} with {e:?}")) };
					let again = e == er(Er::TradeLimitReached) || e == er(Er::SlippageLimitReached) || e == DispatchError::Exhausted;
					if !again { stop = Some(got) } else { m.label("retried"); match self.retry(id, t)? { Ok(()) => return Ok(()), Err(e) => stop = Some(e) } }
				}
			}
		}
		m.label("terminated by the chain");
		self.drop(id);
		let e = stop.unwrap();
		match t.ev.pop_front() { Some(E::Terminated { id: i, who: w, error }) if i == id && w == who && same(&e, &error) => Ok(()), g => Err(format!("event {g:?}, expected end of {id} with {e:?}")) }
	}
	fn id(&self, id: u8) -> u32 { let n = self.sched.len() as u32; if n == 0 || id == 6 { id as u32 } else { *self.sched.keys().nth((id as u32 % n) as usize).unwrap() } }
	fn block_of(&self, id: u32) -> u64 { self.blocks.iter().find(|x| x.1.contains(&id)).map_or(self.now + 1, |x| *x.0) }
	fn free(&self, w: u64, a: AssetId) -> u128 { self.l.get(&w, a).saturating_sub(self.l.locked(&w, a)) }
	fn build(&self, p: &Plan) -> (u64, S, Option<u64>) {
		let min = self.in_native(p.a, cfg().min_budget).unwrap_or(0);
		let total = if p.of_min { match p.total { A::Part(x) => A::Off((x % 3) as i16 - 1).of(min), x => x.of(min) } } else { p.total.of(self.free(p.who, p.a)) };
		let off = |x: u128, d: i8| if d < 0 { x.saturating_sub(1) } else { x.saturating_add(d as u128) };
		let route: BoundedVec<T3, ConstU32<5>> = match p.hops { 0 | 1 => vec![], 2 => vec![hop(p.a, p.c)], _ => { let t = 3 - p.a - p.c; vec![hop(p.a, t), hop(t, p.c)] } }.try_into().unwrap();
		let mk = |x: u128, l: u128| if p.buy { Order::Buy { asset_in: p.a, asset_out: p.c, amount_out: x, max_amount_in: l, route: route.clone() } } else { Order::Sell { asset_in: p.a, asset_out: p.c, amount_in: x, min_amount_out: l, route: route.clone() } };
		let fee = self.fee(&mk(1, 0)).unwrap_or(0);
		let x = match p.size { Size::Part(q) => A::Part(q).of(total), Size::Fee(d) => off(fee.saturating_mul(20), d), Size::MinTrade(d) => off(cfg().min_trade, d), Size::Whole(d) => off(total.saturating_sub(fee), d) };
		let r = route_of(&mk(1, 0));
		// a purchase of about that cost
		let x = if p.buy { quote_sell(&r, x).map_or(1, |v| v.last().unwrap().1) } else { x };
		let l = if p.buy { p.limit.max(quote_buy(&r, x).ok().map(|v| v.last().unwrap().0)) } else { p.limit.min(quote_sell(&r, x).ok().map(|v| v.last().unwrap().1)) };
		let s = Schedule { owner: p.who, period: p.period as u64, total_amount: total, max_retries: p.retries, stability_threshold: p.stable.map(Permill::from_parts), slippage: p.slip.map(Permill::from_parts), order: mk(x, l) };
		(p.signer.unwrap_or(p.who), s, p.start.map(|d| (self.now as i64 + d as i64).max(0) as u64))
	}
}
fn amount(m: &M, o: &Op) -> u128 { match o { Op::Lock { who, a, x } => x.of(m.l.get(who, *a)), Op::Reserve { who, a, x } | Op::Send { who, a, x, .. } => x.of(m.free(*who, *a)), _ => 0 } }
fn dca_events() -> Trace { Trace { ev: take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::DCA(e) = e { Some(e) } else { None }).collect() } }
fn shift(r: (u128, u128), p: i32) -> (u128, u128) { (r.0 * (1_000_000 + p as i64) as u128, r.1 * 1_000_000) }
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg.clone());
	let pairs = [(0u32, 1u32), (0, 2), (1, 2)];
	let base = |k: Pair| { let r = c.rates[pairs.iter().position(|p| *p == k).unwrap()]; (r.0 as u128, r.1 as u128) };
	world(|w| {
		*w = World { hash: c.cfg.hash, fee: c.cfg.fee, ..Default::default() };
		for k in pairs { w.rate.insert(k, base(k)); w.last.insert(k, Some(base(k))); w.short.insert(k, Some(base(k))); }
		for a in [1, 2] { w.native.insert(a, Some(base((0, a))).map(|(n, d)| (n, d))); }
	});
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: 1, ..Default::default() };
	let mut bal = vec![];
	for a in ASSETS { for w in 1..=3u64 { bal.push((w, a, (1u128 << 80) + w as u128)); } bal.push((MARKET, a, 1 << 126)); }
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, FEES, TECH, MARKET];
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = amount(&model, o);
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			match o {
				Op::Blocks { n } => {
					for _ in 0..*n {
						model.now += 1;
						System::set_block_number(model.now);
						System::reset_events();
						let spent = DCA::on_initialize(model.now);
						let mut t = dca_events();
						if world(|w| w.hash).is_none() { t.want(E::RandomnessGenerationFailed { block: model.now, error: er(Er::NoParentHashFound) }).map_err(|e| format!("{}: block {}: {e}", what(), model.now))?; }
						let mut todo = model.blocks.remove(&model.now).unwrap_or_default();
						if todo.len() > 1 { m.label("several in a block"); }
						let mut weight = 7;
						while let Some(e) = t.ev.pop_front() {
							let E::ExecutionStarted { id, block } = e else { return Err(format!("{}: block {}: unexpected {e:?}", what(), model.now)) };
							ensure_that!(block == model.now && todo.remove(&id), "{}: block {}: schedule {id} executed, not planned", what(), model.now);
							weight += model.weight(&model.sched[&id].0.order);
							model.execute(id, &mut t, m).map_err(|e| format!("{}: block {}: {e}", what(), model.now))?;
						}
						ensure_that!(todo.is_empty(), "{}: block {}: {todo:?} not executed", what(), model.now);
						ensure_that!(spent.ref_time() >= weight, "{}: block {}: weight {spent:?}, used {weight}", what(), model.now);
					}
				}
				Op::Schedule(p) => {
					let (signer, s, start) = model.build(p);
					let got = atomic(what, || DCA::schedule(sg(signer), s.clone(), start))?;
					let mut next = model.clone();
					let want = (|| -> R<()> {
						let no = DispatchError::Other("refused");
						if signer != p.who { return Err(no) }
						if s.total_amount < next.in_native(p.a, cfg().min_budget)? { return Err(no) }
						let fee = next.fee(&s.order)?;
						let x = next.cost(&s.order)?;
						if b(x) < b(fee) * b(20) || x < cfg().min_trade || b(x) + b(fee) > b(s.total_amount) { return Err(no) }
						if next.free(p.who, p.a) < s.total_amount { return Err(no) }
						next.sched.insert(next.next, (s.clone(), s.total_amount, 0));
						next.next += 1;
						next.lock();
						Ok(())
					})();
					let from = start.unwrap_or(model.now + 1);
					let full = next.candidates(from).1;
					let want = if want.is_ok() && from > model.now { Some(()) } else { None };
					if !(got.is_err() && want.is_some() && full) { agree(what, &got, &want)?; }
					if got.is_err() { m.label("refused"); continue }
					m.label("scheduled");
					let id = model.next;
					model = next;
					let mut t = dca_events();
					if world(|w| w.hash).is_none() { t.want(E::RandomnessGenerationFailed { block: model.now, error: er(Er::NoParentHashFound) })?; }
					match model.plan(id, from, &mut t).map_err(|e| format!("{}: {e}", what()))? { Ok(()) => {} Err(e) => return Err(format!("{}: accepted without a free block: {e:?}", what())) }
					t.want(E::Scheduled { id, who: p.who, period: s.period, total_amount: s.total_amount, order: s.order.clone() })?;
					ensure_that!(t.ev.is_empty(), "{}: more events {:?}", what(), t.ev);
				}
				Op::Terminate { who, id, block } => {
					let id = model.id(*id);
					let owner = model.sched.get(&id).map_or(1, |s| s.0.owner);
					let who = who.unwrap_or(owner);
					let at = match block { None => { let t = model.block_of(id); if t == model.now + 1 && i % 2 == 0 { None } else { Some(t) } } Some(d) => Some(model.now + *d as u64) };
					let got = atomic(what, || DCA::terminate(sg(who), id, at))?;
					let t = at.unwrap_or(model.now + 1);
					let want = if model.sched.contains_key(&id) && (who == owner || who == TECH) && model.blocks.get(&t).map_or(false, |x| x.contains(&id)) { Some(()) } else { None };
					agree(what, &got, &want)?;
					if want.is_none() { m.label("refused"); continue }
					m.label("terminated");
					let x = model.blocks.get_mut(&t).unwrap();
					x.remove(&id);
					if x.is_empty() { model.blocks.remove(&t); }
					model.drop(id);
					let mut t = dca_events();
					t.want(E::Terminated { id, who: owner, error: er(Er::ManuallyTerminated) }).map_err(|e| format!("{}: {e}", what()))?;
					ensure_that!(t.ev.is_empty(), "{}: more events {:?}", what(), t.ev);
				}
				Op::Rate { a, c, p, oracle, q } => { let k = key(*a, *c).0; world(|w| { w.rate.insert(k, shift(base(k), *p)); if oracle & 1 > 0 { w.last.insert(k, Some(shift(base(k), p / 2 + q / 2))); } if oracle & 2 > 0 { w.short.insert(k, Some(shift(base(k), *q))); } }) }
				Op::NoOracle { a, c, last, back } => { let k = key(*a, *c).0; let v = if *back { Some(base(k)) } else { None }; world(|w| { if *last { w.last.insert(k, v); } else { w.short.insert(k, v); } }) }
				Op::Native { a, p } => world(|w| { w.native.insert(*a, *p); }),
				Op::Fault { a, c, f } => { let k = key(*a, *c).0; world(|w| { w.fault.insert(k, *f); }) }
				Op::Hash { h } => world(|w| w.hash = *h),
				Op::FeeRate { f } => world(|w| w.fee = *f),
				Op::DefaultRoutes { short } => world(|w| w.short_default_routes = *short),
				Op::Lock { who, a, .. } => { if x > 0 { Tokens::set_lock(*b"somelock", *a, who, x).unwrap(); model.frozen.insert((*who, *a), x); } else { Tokens::remove_lock(*b"somelock", *a, who).unwrap(); model.frozen.remove(&(*who, *a)); } model.lock(); }
				Op::Reserve { who, a, .. } => { let ok = x == 0 || model.l.get(who, *a) >= model.l.locked(who, *a) + x; let got = Tokens::reserve_named(&OTHER, *a, who, x); agree(what, &got, &ok.then_some(()))?; if ok { *model.other.entry((*who, *a)).or_insert(0) += x; } model.lock(); }
				Op::Send { who, to, a, .. } => { let mut next = model.clone(); let want = next.l.mv(*a, who, to, x); agree(what, &<Tokens as MultiCurrency<u64>>::transfer(*a, who, to, x), &want)?; if want.is_some() { model = next; } }
			}
			same_ledger(&model.l, &accounts, &ASSETS, |a, w| <Tokens as MultiCurrency<u64>>::total_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for w in accounts { for a in ASSETS {
				ensure_eq!(Tokens::reserved_balance_named(&DCA_RESERVE, a, &w), model.reserved(w, a), "{}: reserve of {w} in {a}", what());
				ensure_eq!(Tokens::reserved_balance_named(&OTHER, a, &w), model.other.get(&(w, a)).copied().unwrap_or(0), "{}: foreign reserve of {w} in {a}", what());
			} }
			ensure_eq!(DCA::next_schedule_id(), model.next, "{}: next id", what());
			let all: BTreeMap<u32, S> = pallet_dca::Schedules::<Test>::iter().collect();
			ensure_eq!(all, model.sched.iter().map(|(k, s)| (*k, s.0.clone())).collect::<BTreeMap<_, _>>(), "{}: schedules", what());
			let rest: BTreeMap<u32, u128> = pallet_dca::RemainingAmounts::<Test>::iter().collect();
			ensure_eq!(rest, model.sched.iter().map(|(k, s)| (*k, s.1)).collect::<BTreeMap<_, _>>(), "{}: remaining amounts", what());
			let own: BTreeSet<(u64, u32)> = pallet_dca::ScheduleOwnership::<Test>::iter().map(|(w, i, _)| (w, i)).collect();
			ensure_eq!(own, model.sched.iter().map(|(k, s)| (s.0.owner, *k)).collect::<BTreeSet<_>>(), "{}: ownership", what());
			let retries: BTreeMap<u32, u8> = pallet_dca::RetriesOnError::<Test>::iter().filter(|x| x.1 > 0).collect();
			ensure_eq!(retries, model.sched.iter().filter(|s| s.1 .2 > 0).map(|(k, s)| (*k, s.2)).collect::<BTreeMap<_, _>>(), "{}: retries", what());
			let blocks: BTreeMap<u64, BTreeSet<u32>> = pallet_dca::ScheduleIdsPerBlock::<Test>::iter().map(|(t, v)| (t, v.iter().copied().collect())).collect();
			ensure_eq!(blocks, model.blocks, "{}: plan", what());
			// every schedule is planned exactly once, in the future
			for id in model.sched.keys() { ensure_eq!(model.blocks.iter().filter(|x| *x.0 > model.now && x.1.contains(id)).count(), 1, "{}: plans of {id}", what()); }
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency with named reserves and locks by the stand-in for orml-tokens; routes, venues, oracles, weights and relay hash by tables; random choices of the code are accepted if they are possible ones");
	c.check("schedules", "histories of recurring orders, blocks, price and oracle moves, failures, terminations, locks and foreign reserves against an exact model following the code's own random choices; non-trivial: a trade was executed", 30_000, 500_000, || case(30), run);
	std::process::exit(c.finish());
}
