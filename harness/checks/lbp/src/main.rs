use frame_system::RawOrigin;
use hydra_dx_math::lbp as math;
use hydradx_traits::{pools::SpotPriceProvider, router::{ExecutorError, PoolType, TradeExecution}, AssetPairAccountIdFor, CanCreatePool, LockedBalance, AMM as _};
use kit::*;
use pallet_lbp::{types::AssetPair, Pool, WeightCurveType, COLLECTOR_LOCK_ID, MAX_WEIGHT};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, LBP: pallet_lbp });
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());

thread_local! { static CFG: Cell<Cfg> = Cell::new(Cfg::default()); }
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { min_liq: u128, max_in: u128, max_out: u128 }
fn cfg() -> Cfg { CFG.with(|c| c.get()) }
parameter_types! {
	pub MinLiq: u128 = cfg().min_liq;
	pub MaxIn: u128 = cfg().max_in;
	pub MaxOut: u128 = cfg().max_out;
}
fn pool_of(a: AssetId, b: AssetId) -> u64 { 10_000 + (a.min(b) * 10 + a.max(b)) as u64 }
pub struct PairId;
impl AssetPairAccountIdFor<AssetId, u64> for PairId { fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pool_of(a, b) } }
pub struct Locked;
impl LockedBalance<AssetId, u64, u128> for Locked { fn get_by_lock(id: [u8; 8], a: AssetId, w: u64) -> u128 { Tokens::locks(w, a).into_iter().find(|l| l.id == id).map_or(0, |l| l.amount) } }
impl pallet_lbp::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type MultiCurrency = Tokens;
	type LockedBalance = Locked;
	type CreatePoolOrigin = frame_system::EnsureRoot<u64>;
	type LBPWeightFunction = pallet_lbp::LBPWeightFunction;
	type AssetPairAccountId = PairId;
	type WeightInfo = ();
	type MinTradingLimit = ConstU128<1000>;
	type MinPoolLiquidity = MinLiq;
	type MaxInRatio = MaxIn;
	type MaxOutRatio = MaxOut;
	type BlockNumberProvider = System;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { root: bool, owner: u64, a: AssetId, b: AssetId, x: u128, y: u128, w: (u32, u32), fee: (u32, u32), coll: u64, target: u128 },
	/// start and end are relative to the current block
	Update { who: Option<u64>, a: AssetId, b: AssetId, owner: Option<u64>, start: Option<i32>, end: Option<u32>, w0: Option<u32>, w1: Option<u32>, fee: Option<(u32, u32)>, coll: Option<u64>, target: Option<u128> },
	Add { who: Option<u64>, a: AssetId, b: AssetId, x: A, y: A },
	Remove { who: Option<u64>, a: AssetId, b: AssetId },
	Sell { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool },
	Buy { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool },
	Blocks(u64),
	/// to the given point (ppm) of the sale
	Into { a: AssetId, b: AssetId, ppm: u32 },
	Send { who: u64, to: u64, a: AssetId, x: A },
}
const ASSETS: [AssetId; 4] = [0, 1, 2, 3];
fn pr() -> impl Strategy<Value = (AssetId, AssetId)> { prop_oneof![12 => prop::sample::select(vec![(0u32, 1u32), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]), 1 => (0u32..4, 0u32..4)] }
fn who() -> impl Strategy<Value = u64> { 1u64..=4 }
fn coll() -> impl Strategy<Value = u64> { prop_oneof![3 => 5u64..=8, 1 => 1u64..=4] }
fn own() -> impl Strategy<Value = Option<u64>> { prop_oneof![10 => Just(None), 1 => who().prop_map(Some)] }
fn wt() -> impl Strategy<Value = u32> { prop_oneof![8 => 2_000_000u32..=98_000_000, 2 => prop::sample::select(vec![0u32, 1_999_999, 2_000_000, 99_999_999, 98_000_000, 100_000_000, 50_000_000, 100_000_001]), 1 => 0u32..=101_000_000] }
fn fee() -> impl Strategy<Value = (u32, u32)> { prop_oneof![4 => (0u32..50, 50u32..10_000), 1 => Just((2u32, 1000u32)), 1 => Just((1, 1)), 1 => Just((0, 1)), 1 => (0u32..5, 0u32..5)] }
fn target() -> impl Strategy<Value = u128> { prop_oneof![3 => Just(0u128), 4 => mag(1, 1 << 70), 1 => Just(u128::MAX)] }
fn liq() -> impl Strategy<Value = u128> { prop_oneof![1 => mag(1, 1 << 80), 6 => mag(1 << 30, 1 << 80)] }
fn create() -> impl Strategy<Value = Op> {
	(prop::bool::weighted(0.95), who(), pr(), liq(), liq(), (wt(), wt()), fee(), coll(), target()).prop_map(|(root, owner, (a, b), x, y, w, fee, coll, target)| Op::Create { root, owner, a, b, x, y, w, fee, coll, target })
}
fn times() -> impl Strategy<Value = (Option<i32>, Option<u32>)> {
	prop_oneof![6 => (1i32..20, 1u32..2000).prop_map(|(s, d)| (Some(s), Some(s as u32 + d))), 2 => (1i32..5, 201_590u32..201_610).prop_map(|(s, d)| (Some(s), Some(s as u32 + d))),
		2 => Just((None, None)), 2 => (prop::option::of(-2i32..20), prop::option::of(0u32..100))]
}
fn update() -> impl Strategy<Value = Op> {
	let o = || prop::option::weighted(0.25, wt());
	(own(), pr(), prop::option::weighted(0.2, who()), times(), o(), o(), prop::option::weighted(0.25, fee()), prop::option::weighted(0.3, coll()), prop::option::weighted(0.2, target()))
		.prop_map(|(who, (a, b), owner, (start, end), w0, w1, fee, coll, target)| Op::Update { who, a, b, owner, start, end, w0, w1, fee, coll, target })
}
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		2 => create(),
		4 => update(),
		2 => (own(), pr(), amt(), amt()).prop_map(|(who, (a, b), x, y)| Op::Add { who, a, b, x, y }),
		2 => (own(), pr()).prop_map(|(who, (a, b))| Op::Remove { who, a, b }),
		10 => (who(), pr(), small_amt(), lim(), any::<bool>()).prop_map(|(who, (a, b), x, lim, route)| Op::Sell { who, a, b, x, lim, route }),
		10 => (who(), pr(), small_amt(), lim(), any::<bool>()).prop_map(|(who, (a, b), x, lim, route)| Op::Buy { who, a, b, x, lim, route }),
		2 => prop_oneof![4 => 1u64..30, 1 => 1u64..3000].prop_map(Op::Blocks),
		5 => (pr(), prop_oneof![8 => 0u32..=1_000_000, 1 => Just(0u32), 1 => Just(1_000_000u32), 1 => Just(1_100_000u32)]).prop_map(|((a, b), ppm)| Op::Into { a, b, ppm }),
		2 => (prop_oneof![who(), coll()], prop_oneof![who(), coll()], 0u32..3, prop_oneof![amt(), Just(A::Off(0))]).prop_map(|(who, to, a, x)| Op::Send { who, to, a, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
/// a few well-formed sales to begin with
fn good() -> impl Strategy<Value = Op> { (who(), liq(), liq(), (2_000_000u32..=98_000_000, 2_000_000u32..=98_000_000), fee(), target()).prop_map(|(owner, x, y, w, fee, target)| Op::Create { root: true, owner, a: 0, b: 1, x, y, w, fee, coll: 5, target }) }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((prop_oneof![Just(1u128), 1u128..100_000], 3u128..6, 3u128..6).prop_map(|(min_liq, max_in, max_out)| Cfg { min_liq, max_in, max_out }),
		proptest::collection::vec((good(), 1i32..20, 1u32..2000), 1..=3), prop::option::weighted(0.7, 0u32..=1_000_000), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, start, into, ops)| {
		let mut v = vec![];
		for (i, (mut g, s, d)) in start.into_iter().enumerate() {
			let p = [(0u32, 1u32), (2, 1), (2, 0)][i];
			if let Op::Create { a, b, coll, .. } = &mut g { *a = p.0; *b = p.1; *coll = 5 + i as u64; }
			v.push(g);
			v.push(Op::Update { who: None, a: p.0, b: p.1, owner: None, start: Some(s), end: Some(s as u32 + d), w0: None, w1: None, fee: None, coll: None, target: None });
		}
		if let Some(ppm) = into { v.push(Op::Into { a: 0, b: 1, ppm }); }
		v.extend(ops);
		Case { cfg, ops: v }
	})
}

type P = Pool<u64, u64>;
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, pools: BTreeMap<u64, P>, used: BTreeSet<(u64, AssetId)>, now: u64 }
fn fee_of(x: u128, f: (u32, u32)) -> Option<u128> { if f.0 == 0 || f.1 == 0 { Some(0) } else if f.0 == f.1 { Some(x) } else { (x / f.1 as u128).checked_mul(f.0 as u128) } }
/// amounts of a trade: sent to the pool, received from it, fee
struct T { pay: u128, get: u128, fee: u128, coll: u64, acc: AssetId, quoted: u128 }
enum Out { None, Ev(pallet_lbp::Event<Test>, Option<pallet_lbp::Event<Test>>), Trade(pallet_lbp::Event<Test>) }
use pallet_lbp::Event as E;
impl M {
	fn res(&self, a: AssetId, b: AssetId) -> (u128, u128) { let p = pool_of(a, b); (self.l.get(&p, a), self.l.get(&p, b)) }
	fn running(&self, p: &P) -> bool { matches!((p.start, p.end), (Some(s), Some(e)) if s <= self.now && self.now <= e) }
	fn valid(&self, p: &P) -> bool {
		let t = match (p.start, p.end) { (None, None) => true, (Some(s), Some(e)) => self.now < s && s < e && e - s < 201_600, _ => false };
		let w = |x: u32| x >= MAX_WEIGHT / 50 && x < MAX_WEIGHT;
		t && w(p.initial_weight) && w(p.final_weight) && p.fee.1 != 0
	}
	fn owner(&self, who: Option<u64>, a: AssetId, b: AssetId) -> u64 { who.unwrap_or_else(|| self.pools.get(&pool_of(a, b)).map_or(1, |p| p.owner)) }
	fn collected(&self, p: &P) -> u128 { self.l.locked(&p.fee_collector, p.assets.0) }
	fn weights(&self, p: &P, a: AssetId) -> Option<(u32, u32)> {
		let w = math::calculate_linear_weights(p.start.unwrap_or(0), p.end.unwrap_or(0), p.initial_weight, p.final_weight, self.now).ok()?;
		let v = MAX_WEIGHT.saturating_sub(w);
		Some(if a == p.assets.0 { (w, v) } else { (v, w) })
	}
	fn fee(&self, p: &P, x: u128) -> Option<u128> { fee_of(x, if self.collected(p) < p.repay_target { (2, 10) } else { p.fee }) }
	/// what a trade moves, ignoring limits and funds
	fn trade(&self, a: AssetId, b: AssetId, x: u128, sell: bool) -> Option<T> {
		let p = self.pools.get(&pool_of(a, b))?;
		let (ra, rb) = self.res(a, b);
		let (wa, wb) = self.weights(p, a)?;
		let (coll, acc) = (p.fee_collector, p.assets.0);
		Some(if sell {
			let out = math::calculate_out_given_in(ra, rb, wa, wb, x).ok()?;
			let fee = self.fee(p, if acc == a { x } else { out })?;
			if acc == a { T { pay: x.checked_sub(fee)?, get: out, fee, coll, acc, quoted: out } } else { T { pay: x, get: out.checked_sub(fee)?, fee, coll, acc, quoted: out - fee } }
		} else if acc == b {
			let fee = self.fee(p, x)?;
			let pay = math::calculate_in_given_out(ra, rb, wa, wb, x.checked_add(fee)?).ok()?;
			T { pay, get: x, fee, coll, acc, quoted: pay }
		} else {
			let all = math::calculate_in_given_out(ra, rb, wa, wb, x).ok()?;
			let fee = self.fee(p, all)?;
			T { pay: all.checked_sub(fee)?, get: x, fee, coll, acc, quoted: all }
		})
	}
	fn amount(&self, o: &Op) -> (u128, u128) {
		match o {
			Op::Add { a, b, x, y, .. } => { let r = self.res(*a, *b); (x.of(r.0), y.of(r.1)) }
			Op::Sell { a, b, x, .. } => (x.of(self.res(*a, *b).0), 0),
			Op::Buy { a, b, x, .. } => (x.of(self.res(*a, *b).1), 0),
			Op::Send { who, a, x, .. } => (x.of(self.l.get(who, *a)), 0),
			_ => (0, 0),
		}
	}
	fn quote(&self, o: &Op, x: u128) -> Option<u128> { match o { Op::Sell { a, b, .. } => Some(self.trade(*a, *b, x, true)?.quoted), Op::Buy { a, b, .. } => Some(self.trade(*a, *b, x, false)?.quoted), _ => None } }
	fn step(&mut self, o: &Op, x: u128, y: u128, limit: u128) -> Option<Out> {
		let c = cfg();
		match *o {
			Op::Create { root, owner, a, b, x, y, w, fee, coll, target } => {
				let id = pool_of(a, b);
				if !root || x < c.min_liq || y < c.min_liq || a == b || self.pools.contains_key(&id) || self.used.contains(&(coll, a)) { return None }
				let p = P { owner, start: None, end: None, assets: (a, b), initial_weight: w.0, final_weight: w.1, weight_curve: WeightCurveType::Linear, fee, fee_collector: coll, repay_target: target };
				if !self.valid(&p) { return None }
				self.l.mv(a, &owner, &id, x)?;
				self.l.mv(b, &owner, &id, y)?;
				self.used.insert((coll, a));
				self.pools.insert(id, p.clone());
				Some(Out::Ev(E::PoolCreated { pool: id, data: p }, Some(E::LiquidityAdded { who: id, asset_a: a, asset_b: b, amount_a: x, amount_b: y })))
			}
			Op::Update { who, a, b, owner, start, end, w0, w1, fee, coll, target } => {
				let id = pool_of(a, b);
				let who = self.owner(who, a, b);
				let mut p = self.pools.get(&id)?.clone();
				if start.is_none() && end.is_none() && w0.is_none() && w1.is_none() && fee.is_none() && coll.is_none() && target.is_none() { return None }
				if who != p.owner || p.start.map_or(false, |s| s <= self.now) { return None }
				if let Some(w) = owner { p.owner = w }
				if let Some(s) = start { p.start = Some(at(self.now, s)) }
				if let Some(e) = end { p.end = Some(self.now + e as u64) }
				if let Some(w) = w0 { p.initial_weight = w }
				if let Some(w) = w1 { p.final_weight = w }
				if let Some(f) = fee { p.fee = f }
				if let Some(k) = coll {
					if !self.used.insert((k, p.assets.0)) { return None }
					self.used.remove(&(p.fee_collector, p.assets.0));
					p.fee_collector = k;
				}
				if let Some(t) = target { p.repay_target = t }
				if !self.valid(&p) { return None }
				self.pools.insert(id, p.clone());
				Some(Out::Ev(E::PoolUpdated { pool: id, data: p }, None))
			}
			Op::Add { who, a, b, .. } => {
				let id = pool_of(a, b);
				let w = self.owner(who, a, b);
				if self.pools.get(&id)?.owner != w || (x == 0 && y == 0) { return None }
				self.l.mv(a, &w, &id, x)?;
				self.l.mv(b, &w, &id, y)?;
				Some(Out::Ev(E::LiquidityAdded { who: id, asset_a: a, asset_b: b, amount_a: x, amount_b: y }, None))
			}
			Op::Remove { who, a, b } => {
				let id = pool_of(a, b);
				let w = self.owner(who, a, b);
				let p = self.pools.get(&id)?.clone();
				if p.owner != w || self.running(&p) { return None }
				let (asset_a, asset_b) = p.assets;
				let (amount_a, amount_b) = self.res(asset_a, asset_b);
				self.l.mv(asset_a, &id, &w, amount_a)?;
				self.l.mv(asset_b, &id, &w, amount_b)?;
				self.l.locks.remove(&(p.fee_collector, asset_a));
				self.used.remove(&(p.fee_collector, asset_a));
				self.pools.remove(&id);
				Some(Out::Ev(E::LiquidityRemoved { who: id, asset_a, asset_b, amount_a, amount_b }, None))
			}
			Op::Sell { who, a, b, .. } | Op::Buy { who, a, b, .. } => {
				let sell = matches!(o, Op::Sell { .. });
				let id = pool_of(a, b);
				if x == 0 || !self.running(self.pools.get(&id)?) { return None }
				let (ra, rb) = self.res(a, b);
				let t = self.trade(a, b, x, sell)?;
				// sizes are judged before fees are taken off
				let gross_in = if sell { x } else { t.quoted };
				let gross_out = if !sell { x } else if t.acc == b { t.get + t.fee } else { t.get };
				if gross_in > ra / c.max_in || gross_out > rb / c.max_out || self.l.get(&who, a) < gross_in { return None }
				if sell && t.quoted < limit || !sell && t.quoted > limit { return None }
				self.l.mv(a, &who, &id, t.pay)?;
				self.l.mv(b, &id, &who, t.get)?;
				self.l.mv(t.acc, if t.acc == a { &who } else { &id }, &t.coll, t.fee)?;
				let k = (t.coll, t.acc);
				let locked = self.l.locked(&k.0, k.1) + t.fee;
				if locked > 0 { self.l.locks.insert(k, locked); }
				Some(Out::Trade(if sell { E::SellExecuted { who, asset_in: a, asset_out: b, amount: t.pay, sale_price: t.get, fee_asset: t.acc, fee_amount: t.fee } } else { E::BuyExecuted { who, asset_out: b, asset_in: a, amount: t.pay, buy_price: t.get, fee_asset: t.acc, fee_amount: t.fee } }))
			}
			Op::Blocks(n) => { self.now += n; Some(Out::None) }
			Op::Into { a, b, ppm } => {
				if let Some((s, e)) = self.pools.get(&pool_of(a, b)).and_then(|p| Some((p.start?, p.end?))) { self.now = self.now.max(s + (e - s) * ppm as u64 / 1_000_000); }
				Some(Out::None)
			}
			Op::Send { who, to, a, .. } => { self.l.mv(a, &who, &to, x)?; Some(Out::None) }
		}
	}
}
fn at(now: u64, d: i32) -> u64 { now.saturating_add_signed(d as i64) }

fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| x.set(c.cfg));
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: 1, ..Default::default() };
	let mut bal = vec![];
	for w in 1..=4u64 { for a in 0..3 { let v = 1u128 << (82 + w); bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let mut accounts: Vec<u64> = (1..=8).collect();
	for a in ASSETS { for b in ASSETS { if a <= b { accounts.push(pool_of(a, b)); } } }
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let (x, y) = model.amount(o);
			let exact = model.quote(o, x);
			let limit = match o { Op::Buy { lim, .. } => lim.max(exact), Op::Sell { lim, .. } => lim.min(exact), _ => 0 };
			let mut next = model.clone();
			let want = next.step(o, x, y, limit);
			System::reset_events();
			let flat = |r: Result<(), ExecutorError<DispatchError>>| r.map_err(|e| match e { ExecutorError::Error(e) => e, _ => "not supported".into() });
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			if let (Op::Sell { a, b, .. } | Op::Buy { a, b, .. }, true) = (o, x > 0) {
				let q = if matches!(o, Op::Sell { .. }) { LBP::calculate_sell(PoolType::LBP, *a, *b, x) } else { LBP::calculate_buy(PoolType::LBP, *a, *b, x) };
				if exact.is_some() { ensure_eq!(q.ok(), exact, "{}: quote", what()); }
				if !model.pools.contains_key(&pool_of(*a, *b)) { ensure_that!(LBP::calculate_sell(PoolType::LBP, *a, *b, x).is_err() && LBP::calculate_buy(PoolType::LBP, *a, *b, x).is_err(), "{}: quote of a sale that does not exist", what()); }
				router_view(&model, *a, *b, x).map_err(|e| format!("{}: {e}", what()))?;
			}
			let got = atomic(what, || match *o {
				Op::Create { root, owner, a, b, x, y, w, fee, coll, target } => LBP::create_pool(if root { RawOrigin::Root.into() } else { sg(owner) }, owner, a, x, b, y, w.0, w.1, WeightCurveType::Linear, fee, coll, target),
				Op::Update { who, a, b, owner, start, end, w0, w1, fee, coll, target } => LBP::update_pool_data(sg(model.owner(who, a, b)), pool_of(a, b), owner, start.map(|d| at(model.now, d)), end.map(|d| model.now + d as u64), w0, w1, fee, coll, target),
				Op::Add { who, a, b, .. } => LBP::add_liquidity(sg(model.owner(who, a, b)), (a, x), (b, y)),
				Op::Remove { who, a, b } => LBP::remove_liquidity(sg(model.owner(who, a, b)), pool_of(a, b)),
				Op::Sell { who, a, b, route, .. } => if route { flat(<LBP as TradeExecution<_, _, _, _>>::execute_sell(sg(who), PoolType::LBP, a, b, x, limit)) } else { LBP::sell(sg(who), a, b, x, limit) },
				Op::Buy { who, a, b, route, .. } => if route { flat(<LBP as TradeExecution<_, _, _, _>>::execute_buy(sg(who), PoolType::LBP, a, b, x, limit)) } else { LBP::buy(sg(who), b, a, x, limit) },
				Op::Blocks(_) | Op::Into { .. } => { System::set_block_number(next.now); Ok(()) }
				Op::Send { who, to, a, .. } => Tokens::transfer(sg(who), to, a, x),
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let before = std::mem::replace(&mut model, next);
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::LBP(e) = e { Some(e) } else { None }).collect();
			match out {
				Out::None => ensure_eq!(ev, vec![], "{}: events", what()),
				Out::Ev(e, f) => { m.label(match o { Op::Create { .. } => "create", Op::Update { .. } => "update", Op::Add { .. } => "add", _ => "remove" }); ensure_eq!(ev, std::iter::once(e).chain(f).collect::<Vec<_>>(), "{}: events", what()) }
				Out::Trade(e) => {
					m.nontrivial();
					let (Op::Sell { who, a, b, .. } | Op::Buy { who, a, b, .. }) = o else { unreachable!() };
					let p = &before.pools[&pool_of(*a, *b)];
					m.label(if before.collected(p) < p.repay_target { "trade with repay fee" } else { "trade" });
					if *who == p.fee_collector { m.label("collector trades"); }
					ensure_eq!(ev, vec![e], "{}: events", what());
				}
			}
			same_ledger(&model.l, &accounts, &ASSETS, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for w in &accounts { for a in ASSETS {
				let l = Tokens::locks(*w, a);
				ensure_that!(l.iter().all(|l| l.id == COLLECTOR_LOCK_ID), "{}: foreign lock", what());
				ensure_eq!(l.iter().map(|l| l.amount).sum::<u128>(), model.l.locked(w, a), "{}: fees locked for {w} in {a}", what());
				ensure_eq!(pallet_lbp::FeeCollectorWithAsset::<Test>::get(w, a), model.used.contains(&(*w, a)), "{}: collector {w} registered for {a}", what());
			} }
			for a in ASSETS { for b in ASSETS {
				let id = pool_of(a, b);
				let p = model.pools.get(&id);
				if a < b {
					ensure_eq!(LBP::pool_data(id), p.cloned(), "{}: pool {a}/{b}", what());
					ensure_eq!(LBP::get_pool_assets(&id), p.map(|p| vec![p.assets.0, p.assets.1]), "{}: assets of {a}/{b}", what());
					ensure_eq!(pallet_lbp::DisallowWhenLBPPoolRunning::<Test>::can_create(b, a), p.map_or(true, |p| p.end.map_or(false, |e| e < model.now)), "{}: other pool for {a}/{b} allowed", what());
					ensure_eq!(LBP::get_fee(&id), p.map_or((0, 0), |p| p.fee), "{}: fee of {a}/{b}", what());
				}
				ensure_eq!(LBP::exists(AssetPair { asset_in: a, asset_out: b }), p.is_some(), "{}: existence of {a}/{b}", what());
				if a == b { ensure_eq!(<LBP as SpotPriceProvider<AssetId>>::spot_price(a, b), Some(FixedU128::from(1)), "{}: price of {a} in itself", what()); continue }
				// price: reserves over weights
				let (ra, rb) = model.res(a, b);
				let got = <LBP as SpotPriceProvider<AssetId>>::spot_price(a, b).map(|p| p.into_inner());
				let want = p.and_then(|p| model.weights(p, a)).and_then(|(wa, wb)| {
					let (n, d) = (ra.checked_mul(wb as u128)?, rb.checked_mul(wa as u128)?);
					quo(b_(n) * b_(1_000_000_000_000_000_000), b_(d))
				});
				match (got, want) { (Some(g), Some(w)) => ensure_that!(g.abs_diff(w) <= 1, "{}: price of {a}/{b} {g}, expected {w}", what()), (g, w) => ensure_eq!(g, w, "{}: price of {a}/{b}", what()) }
				if p.is_some() { ensure_eq!(LBP::get_liquidity_depth(PoolType::LBP, a, b).ok(), Some(ra), "{}: depth of {a}/{b}", what()); }
			} }
		}
		Ok(())
	})
}
fn b_(x: u128) -> U1024 { b(x) }
/// The sale as the router and the exchange see it: price and depth of a pair.
fn router_view(model: &M, a: AssetId, b: AssetId, x: u128) -> Res {
	let (ra, rb) = model.res(a, b);
	let pool = model.pools.get(&pool_of(a, b));
	let price = pool.and_then(|p| {
		let (wa, wb) = model.weights(p, a)?;
		let fee = if model.collected(p) < p.repay_target { (2, 10) } else { p.fee };
		routed::inverse(math::calculate_spot_price_with_fee(ra, rb, wa, wb, p.assets.0, b, Some(fee)).ok()?)
	});
	ensure_eq!(routed::value(LBP::calculate_spot_price_with_fee(PoolType::LBP, a, b))?, price, "price with fee");
	ensure_eq!(routed::value(LBP::get_liquidity_depth(PoolType::LBP, a, b))?, Some(ra), "depth");
	let spot = pool.and_then(|p| { let (wa, wb) = model.weights(p, a)?; quo(b_(x) * b_(rb) * b_(wa as u128), b_(ra) * b_(wb as u128)) }).unwrap_or(0);
	ensure_eq!(LBP::get_spot_price_unchecked(a, b, x), spot, "price of {x}");
	routed::only_own::<RuntimeOrigin, LBP>(PoolType::LBP, || RawOrigin::Signed(1).into(), a, b, x.max(1000))
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("existential deposits of one; pool accounts from an injective stand-in; amounts of the weighted curve are those of hydra-dx-math (decided by C08)");
	c.check("histories", "histories of creating, updating, filling, trading (direct and through the router interface) and removing sales over blocks against an exact ledger; non-trivial: a trade was executed", 30_000, 600_000, || case(28), run);
	std::process::exit(c.finish());
}
