use frame_system::RawOrigin;
use hydra_dx_math::stableswap as sm;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydradx_traits::router::{PoolType, TradeExecution};
use hydradx_traits::AccountIdFor;
use kit::fakes::*;
use kit::*;
use pallet_stableswap::types::{AssetAmount, PoolInfo, PoolState, StableswapHooks, Tradability};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::num::NonZeroU16;
use std::ops::RangeInclusive;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Stable: pallet_stableswap });
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
const D: u8 = sm::MAX_D_ITERATIONS;
const Y: u8 = sm::MAX_Y_ITERATIONS;

#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { min_liq: u128, min_trade: u128, amp: (u16, u16) }
thread_local! { static CFG: Cell<Cfg> = Cell::new(Cfg::default()); static SEEN: RefCell<Vec<Hook>> = RefCell::new(vec![]); }
fn cfg() -> Cfg { CFG.with(|c| c.get()) }
parameter_types! {
	pub MinLiq: u128 = cfg().min_liq;
	pub MinTrade: u128 = cfg().min_trade;
	pub Amp: RangeInclusive<NonZeroU16> = RangeInclusive::new(NonZeroU16::new(cfg().amp.0).unwrap(), NonZeroU16::new(cfg().amp.1).unwrap());
}
#[derive(Clone, Debug, PartialEq)]
enum Hook { Liq(AssetId, PoolState<AssetId>), Trade(AssetId, AssetId, AssetId, PoolState<AssetId>) }
pub struct Spy;
fn note(h: Hook) -> DispatchResult { SEEN.with(|s| s.borrow_mut().push(h)); if faulty() { Err("injected".into()) } else { Ok(()) } }
impl StableswapHooks<AssetId> for Spy {
	fn on_liquidity_changed(p: AssetId, s: PoolState<AssetId>) -> DispatchResult { note(Hook::Liq(p, s)) }
	fn on_trade(p: AssetId, i: AssetId, o: AssetId, s: PoolState<AssetId>) -> DispatchResult { note(Hook::Trade(p, i, o, s)) }
	fn on_liquidity_changed_weight(_: usize) -> frame_support::weights::Weight { Default::default() }
	fn on_trade_weight(_: usize) -> frame_support::weights::Weight { Default::default() }
}
fn acc(p: AssetId) -> u64 { 10_000 + p as u64 }
pub struct ShareAcc;
impl AccountIdFor<AssetId> for ShareAcc {
	type AccountId = u64;
	fn from_assets(p: &AssetId, id: Option<&[u8]>) -> u64 { if id == Some(b"sts") { acc(*p) } else { 77 } }
	fn name(p: &AssetId, _: Option<&[u8]>) -> Vec<u8> { p.to_le_bytes().to_vec() }
}
impl pallet_stableswap::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type BlockNumberProvider = System;
	type AssetId = AssetId;
	type Currency = Tokens;
	type ShareAccountId = ShareAcc;
	type AssetInspection = Registry;
	type AuthorityOrigin = frame_system::EnsureRoot<u64>;
	type DustAccountHandler = White;
	type Hooks = Spy;
	type MinPoolLiquidity = MinLiq;
	type MinTradingLimit = MinTrade;
	type AmplificationRange = Amp;
	type WeightInfo = ();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { root: bool, share: AssetId, assets: Vec<AssetId>, amp: u16, fee: u32, fault: bool },
	Fee { root: bool, p: AssetId, fee: u32 },
	Ramp { root: bool, p: AssetId, to: u16, start: i8, len: i8 },
	Next(u8),
	State { root: bool, p: AssetId, a: AssetId, bits: u8 },
	Add { who: u64, p: AssetId, x: Vec<(AssetId, A)>, all: Option<u32>, fault: bool },
	AddShares { who: u64, p: AssetId, a: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	RemoveOne { who: u64, p: AssetId, a: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	Withdraw { who: u64, p: AssetId, a: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	Sell { who: u64, p: AssetId, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	Buy { who: u64, p: AssetId, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	Donate { who: u64, p: AssetId, a: AssetId, x: A },
	Give { who: u64, to: u64, p: AssetId, x: A },
}
// 0..=4 ordinary, 5 has no decimals, 6 is not registered; shares 100, 101, 103 registered, 102 not
const DEC: [(AssetId, Option<u8>); 9] = [(0, Some(6)), (1, Some(18)), (2, Some(12)), (3, Some(0)), (4, Some(18)), (5, None), (100, Some(18)), (101, Some(18)), (103, Some(18))];
fn dec(a: AssetId) -> Option<u8> { DEC.iter().find(|x| x.0 == a).and_then(|x| x.1) }
const POOLS: [AssetId; 4] = [100, 101, 102, 103];
fn asset() -> impl Strategy<Value = AssetId> { prop_oneof![24 => prop::sample::select(vec![0u32, 1, 2]), 4 => Just(3u32), 4 => Just(4u32), 1 => Just(5u32), 1 => Just(6u32), 4 => Just(100u32)] }
/// 200 + i: the i-th asset of the pool
fn passet() -> impl Strategy<Value = AssetId> { prop_oneof![9 => 200u32..205, 1 => asset()] }
fn pool() -> impl Strategy<Value = AssetId> { prop_oneof![12 => Just(100u32), 5 => Just(101u32), 1 => Just(102u32), 1 => Just(103u32)] }
fn who() -> impl Strategy<Value = u64> { 1u64..=3 }
fn flt() -> impl Strategy<Value = bool> { prop::bool::weighted(0.05) }
fn root() -> impl Strategy<Value = bool> { prop::bool::weighted(0.93) }
fn amp() -> impl Strategy<Value = u16> { prop_oneof![6 => 2u16..1000, 2 => 1u16..=10_000, 1 => any::<u16>(), 1 => 0u16..3] }
fn fee() -> impl Strategy<Value = u32> { prop_oneof![2 => Just(0u32), 6 => 0u32..20_000, 1 => 0u32..=1_000_000] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		1 => (root(), pool(), proptest::collection::vec(asset(), 0..7), amp(), fee(), flt()).prop_map(|(root, share, assets, amp, fee, fault)| Op::Create { root, share, assets, amp, fee, fault }),
		1 => (root(), pool(), fee()).prop_map(|(root, p, fee)| Op::Fee { root, p, fee }),
		2 => (root(), pool(), amp(), -1i8..20, -1i8..60).prop_map(|(root, p, to, start, len)| Op::Ramp { root, p, to, start, len }),
		3 => (1u8..30).prop_map(Op::Next),
		2 => (root(), pool(), passet(), prop_oneof![2 => Just(15u8), 1 => 0u8..16]).prop_map(|(root, p, a, bits)| Op::State { root, p, a, bits }),
		4 => (who(), pool(), proptest::collection::vec((passet(), small_amt()), 0..5), prop_oneof![1 => Just(None), 1 => (1u32..2_000_000).prop_map(Some)], flt()).prop_map(|(who, p, x, all, fault)| Op::Add { who, p, x, all, fault }),
		2 => (who(), pool(), passet(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, p, a, x, lim, route, fault)| Op::AddShares { who, p, a, x, lim, route, fault }),
		4 => (who(), pool(), passet(), prop_oneof![3 => amt().boxed(), 1 => Just(A::Off(0)).boxed()], lim(), any::<bool>(), flt()).prop_map(|(who, p, a, x, lim, route, fault)| Op::RemoveOne { who, p, a, x, lim, route, fault }),
		2 => (who(), pool(), passet(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, p, a, x, lim, route, fault)| Op::Withdraw { who, p, a, x, lim, route, fault }),
		5 => (who(), pool(), passet(), passet(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, p, a, b, x, lim, route, fault)| Op::Sell { who, p, a, b, x, lim, route, fault }),
		5 => (who(), pool(), passet(), passet(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, p, a, b, x, lim, route, fault)| Op::Buy { who, p, a, b, x, lim, route, fault }),
		1 => (who(), pool(), passet(), small_amt()).prop_map(|(who, p, a, x)| Op::Donate { who, p, a, x }),
		4 => (who(), who(), pool(), prop_oneof![1 => amt(), 2 => (0i64..500).prop_map(|k| A::Off(-k as _)).boxed(), 1 => mag(1, 1 << 20).prop_map(A::Abs).boxed()]).prop_map(|(who, to, p, x)| Op::Give { who, to, p, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, pools: Vec<(Vec<AssetId>, u16, u32, Vec<u128>)>, ops: Vec<Op> }
fn config() -> impl Strategy<Value = Cfg> {
	(prop_oneof![3 => Just(1u128), 3 => 1u128..1000, 1 => mag(1, 1 << 60)], prop_oneof![Just(1u128), Just(0u128), 1u128..2000], prop_oneof![3 => Just((2u16, 10_000u16)), 1 => (1u16..50, 50u16..60_000)]).prop_map(|(min_liq, min_trade, amp)| Cfg { min_liq, min_trade, amp })
}
fn start() -> impl Strategy<Value = (Vec<AssetId>, u16, u32, Vec<u128>)> {
	(prop::sample::select(vec![vec![0u32, 1], vec![1, 0, 2], vec![2, 1, 0, 4], vec![0, 1, 2, 3, 4], vec![1, 4], vec![2, 1, 100]]), 2u16..2000, fee(), prop_oneof![4 => mag(1 << 10, 1 << 44).boxed(), 1 => mag(1, 1 << 60).boxed()], proptest::collection::vec(prop_oneof![6 => 500_000u32..2_000_000, 1 => 1000u32..100_000_000], 5))
		.prop_map(|(a, amp, fee, unit, r)| {
			let x = a.iter().zip(r).map(|(a, r)| { let v = b(unit) * b(r as u128) * b(10u128.pow(dec(*a).unwrap() as u32)) / b(1_000_000_000_000u128); small(v).unwrap_or(1 << 100).clamp(1, 1 << 100) }).collect();
			(a, amp, fee, x)
		})
}
fn case(n: usize) -> impl Strategy<Value = Case> { (config(), proptest::collection::vec(start(), 1..=2), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, pools, ops)| Case { cfg, pools, ops }) }

#[derive(Clone, Debug)]
struct Pool { assets: Vec<AssetId>, a0: u16, a1: u16, b0: u64, b1: u64, fee: u32 }
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, pools: BTreeMap<AssetId, Pool>, state: BTreeMap<(AssetId, AssetId), u8>, now: u64 }
struct Out { hooks: Vec<Hook>, events: Vec<pallet_stableswap::Event<Test>>, acts: Vec<Act> }
const SELL: u8 = 1; const BUY: u8 = 2; const ADD: u8 = 4; const REMOVE: u8 = 8;
impl M {
	fn may(&self, p: AssetId, a: AssetId, bit: u8) -> bool { self.state.get(&(p, a)).copied().unwrap_or(15) & bit != 0 }
	fn amp(&self, p: &Pool) -> u128 { sm::calculate_amplification(p.a0 as u128, p.a1 as u128, p.b0 as u128, p.b1 as u128, self.now as u128) }
	fn reserves(&self, p: AssetId) -> Option<Vec<AssetReserve>> {
		self.pools.get(&p)?.assets.iter().map(|a| Some(AssetReserve { amount: self.l.get(&acc(p), *a), decimals: dec(*a)? })).collect()
	}
	fn idx(&self, p: AssetId, a: AssetId) -> Option<usize> { self.pools.get(&p)?.assets.iter().position(|x| *x == a) }
	fn hook(&self, p: AssetId, before: &[AssetReserve], issued: u128) -> Option<PoolState<AssetId>> {
		let pl = &self.pools[&p];
		let after = self.reserves(p)?;
		let issuance = self.l.total(p);
		Some(PoolState {
			assets: pl.assets.clone(), before: before.iter().map(|r| r.amount).collect(), after: after.iter().map(|r| r.amount).collect(),
			delta: before.iter().zip(&after).map(|(a, b)| if a.amount > b.amount { a.amount - b.amount } else { b.amount - a.amount }).collect(),
			issuance_before: issued, issuance_after: issuance, share_prices: sm::calculate_share_prices::<D>(&after, self.amp(pl), issuance)?,
		})
	}
	fn resolve(&self, o: &Op) -> Op {
		let mut o = o.clone();
		let f = |p: AssetId, a: &mut AssetId| if *a >= 200 { let i = *a as usize - 200; *a = match self.pools.get(&p) { Some(pl) => pl.assets[i % pl.assets.len()], None => i as u32 } };
		match &mut o {
			Op::State { p, a, .. } | Op::AddShares { p, a, .. } | Op::RemoveOne { p, a, .. } | Op::Withdraw { p, a, .. } | Op::Donate { p, a, .. } => f(*p, a),
			Op::Sell { p, a, b, .. } | Op::Buy { p, a, b, .. } => { f(*p, a); f(*p, b) }
			Op::Add { p, x, .. } => for (a, _) in x { f(*p, a) },
			_ => {}
		}
		o
	}
	fn amount(&self, o: &Op) -> u128 {
		let r = |p: AssetId, a: AssetId| self.l.get(&acc(p), a);
		match o {
			Op::AddShares { p, x, .. } => x.of(self.l.total(*p)),
			Op::RemoveOne { who, p, x, .. } => x.of(self.l.get(who, *p)),
			Op::Withdraw { p, a, x, .. } | Op::Sell { p, a, x, .. } | Op::Donate { p, a, x, .. } => x.of(r(*p, *a)),
			Op::Buy { p, b, x, .. } => x.of(r(*p, *b)),
			Op::Give { who, p, x, .. } => x.of(self.l.get(who, *p)),
			_ => 0,
		}
	}
	/// (amount, fee) computed for the operation
	fn quote(&self, o: &Op, x: u128) -> Option<(u128, u128)> {
		let (p, a, b2) = match *o { Op::AddShares { p, a, .. } | Op::RemoveOne { p, a, .. } | Op::Withdraw { p, a, .. } => (p, a, a), Op::Sell { p, a, b, .. } | Op::Buy { p, a, b, .. } => (p, a, b), _ => return None };
		let pl = self.pools.get(&p)?;
		let (r, i, j, t, amp, f) = (self.reserves(p)?, self.idx(p, a)?, self.idx(p, b2)?, self.l.total(p), self.amp(pl), Permill::from_parts(pl.fee));
		match o {
			Op::AddShares { .. } => { if r.iter().any(|r| r.amount == 0) { return None } sm::calculate_add_one_asset::<D, Y>(&r, x, i, t, amp, f) }
			Op::RemoveOne { .. } => sm::calculate_withdraw_one_asset::<D, Y>(&r, x, i, t, amp, f),
			Op::Withdraw { .. } => sm::calculate_shares_for_amount::<D>(&r, i, x, amp, t, f).map(|s| (s, 0)),
			Op::Sell { .. } => { if r[i].amount == 0 || r[j].amount == 0 || i == j { return None } sm::calculate_out_given_in_with_fee::<D, Y>(&r, i, j, x, amp, f) }
			Op::Buy { .. } => { if r[i].amount == 0 || r[j].amount <= x || i == j { return None } sm::calculate_in_given_out_with_fee::<D, Y>(&r, i, j, x, amp, f) }
			_ => None,
		}
	}
	fn adds(&self, p: AssetId, x: &[(AssetId, A)], all: Option<u32>) -> Vec<(AssetId, u128)> {
		if let (Some(f), Some(pl)) = (all, self.pools.get(&p)) { return pl.assets.iter().map(|a| (*a, A::Part(f).of(self.l.get(&acc(p), *a)))).collect() }
		x.iter().map(|(a, v)| (*a, v.of(self.l.get(&acc(p), *a)))).collect()
	}
	fn step(&mut self, o: &Op, x: u128, limit: u128, adds: &[(AssetId, u128)]) -> Option<Out> {
		use pallet_stableswap::Event as E;
		let c = cfg();
		let mut out = Out { hooks: vec![], events: vec![], acts: vec![] };
		match o.clone() {
			Op::Create { root, share, assets, amp, fee, fault } => {
				let mut s = assets.clone();
				s.sort();
				let n = s.len();
				s.dedup();
				if fault || !root || self.pools.contains_key(&share) || share == 102 || assets.contains(&share) || s.len() != n || n < 2 || n > 5 || assets.contains(&6) || assets.contains(&102) || amp < c.amp.0 || amp > c.amp.1 || amp == 0 { return None }
				self.pools.insert(share, Pool { assets: s, a0: amp, a1: amp, b0: self.now, b1: self.now, fee });
				let k = NonZeroU16::new(amp).unwrap();
				out.acts = vec![Act::Custom("white", vec![acc(share) as u128])];
				out.events = vec![E::PoolCreated { pool_id: share, assets, amplification: k, fee: Permill::from_parts(fee) }, E::AmplificationChanging { pool_id: share, current_amplification: k, final_amplification: k, start_block: self.now, end_block: self.now }];
			}
			Op::Fee { root, p, fee } => {
				if !root { return None }
				self.pools.get_mut(&p)?.fee = fee;
				out.events = vec![E::FeeUpdated { pool_id: p, fee: Permill::from_parts(fee) }];
			}
			Op::Ramp { root, p, to, start, len } => {
				let (s, e) = self.ramp(start, len);
				let cur = self.amp(self.pools.get(&p)?) as u16;
				if !root || e <= s || s < self.now || cur == to || to < c.amp.0 || to > c.amp.1 { return None }
				let pl = self.pools.get_mut(&p)?;
				*pl = Pool { a0: cur, a1: to, b0: s, b1: e, ..pl.clone() };
				out.events = vec![E::AmplificationChanging { pool_id: p, current_amplification: NonZeroU16::new(cur)?, final_amplification: NonZeroU16::new(to)?, start_block: s, end_block: e }];
			}
			Op::Next(n) => self.now += n as u64,
			Op::State { root, p, a, bits } => {
				self.idx(p, a)?;
				if !root { return None }
				self.state.insert((p, a), bits);
				out.events = vec![E::TradableStateUpdated { pool_id: p, asset_id: a, state: Tradability::from_bits(bits)? }];
			}
			Op::Add { who, p, fault, .. } => {
				let pl = self.pools.get(&p)?.clone();
				let before = self.reserves(p)?;
				let mut after = before.clone();
				let issued = self.l.total(p);
				if adds.len() > pl.assets.len() { return None }
				let mut seen = vec![];
				for (a, v) in adds {
					let i = self.idx(p, *a)?;
					if seen.contains(a) || !self.may(p, *a, ADD) || *v < c.min_trade || self.l.get(&who, *a) < *v { return None }
					seen.push(*a);
					after[i].amount = after[i].amount.checked_add(*v)?;
				}
				if pl.assets.iter().zip(&before).any(|(a, r)| r.amount == 0 && !seen.contains(a)) { return None }
				let s = sm::calculate_shares::<D>(&before, &after, self.amp(&pl), issued, Permill::from_parts(pl.fee))?;
				if s == 0 || self.l.get(&who, p).saturating_add(s) < c.min_liq || fault { return None }
				self.l.mint(&who, p, s)?;
				for (a, v) in adds { self.l.mv(*a, &who, &acc(p), *v)?; }
				out.hooks = vec![Hook::Liq(p, self.hook(p, &before, issued)?)];
				out.events = vec![E::LiquidityAdded { pool_id: p, who, shares: s, assets: adds.iter().map(|(a, v)| AssetAmount::new(*a, *v)).collect() }];
			}
			Op::AddShares { who, p, a, fault, .. } => {
				let (y, _) = self.quote(o, x)?;
				let (before, issued) = (self.reserves(p)?, self.l.total(p));
				if !self.may(p, a, ADD) || y > limit || y == 0 || self.l.get(&who, p).saturating_add(x) < c.min_liq || fault { return None }
				self.l.mint(&who, p, x)?;
				self.l.mv(a, &who, &acc(p), y)?;
				out.hooks = vec![Hook::Liq(p, self.hook(p, &before, issued)?)];
				out.events = vec![E::LiquidityAdded { pool_id: p, who, shares: x, assets: vec![AssetAmount::new(a, y)] }];
			}
			Op::RemoveOne { who, p, a, fault, .. } => {
				let (own, issued) = (self.l.get(&who, p), self.l.total(p));
				if !self.may(p, a, REMOVE) || x == 0 || own < x || (own != x && own - x < c.min_liq) || (issued != x && issued - x < c.min_liq) || fault { return None }
				let (y, fee) = self.quote(o, x)?;
				let before = self.reserves(p)?;
				if y < limit { return None }
				self.l.burn(&who, p, x)?;
				self.l.mv(a, &acc(p), &who, y)?;
				out.hooks = vec![Hook::Liq(p, self.hook(p, &before, issued)?)];
				out.events = vec![E::LiquidityRemoved { pool_id: p, who, shares: x, amounts: vec![AssetAmount::new(a, y)], fee }];
			}
			Op::Withdraw { who, p, a, fault, .. } => {
				if !self.may(p, a, REMOVE) || x == 0 || fault { return None }
				let (s, _) = self.quote(o, x)?;
				let (own, issued, before) = (self.l.get(&who, p), self.l.total(p), self.reserves(p)?);
				if s > limit || own < s || (own != s && own - s < c.min_liq) { return None }
				self.l.burn(&who, p, s)?;
				self.l.mv(a, &acc(p), &who, x)?;
				out.hooks = vec![Hook::Liq(p, self.hook(p, &before, issued)?)];
				out.events = vec![E::LiquidityRemoved { pool_id: p, who, shares: s, amounts: vec![AssetAmount::new(a, x)], fee: 0 }];
			}
			Op::Sell { who, p, a, b, fault, .. } => {
				if a == b || !self.may(p, a, SELL) || !self.may(p, b, BUY) || x < c.min_trade || self.l.get(&who, a) < x || fault { return None }
				let (y, fee) = self.quote(o, x)?;
				let (before, issued) = (self.reserves(p)?, self.l.total(p));
				if y < limit { return None }
				self.l.mv(a, &who, &acc(p), x)?;
				self.l.mv(b, &acc(p), &who, y)?;
				out.hooks = vec![Hook::Trade(p, a, b, self.hook(p, &before, issued)?)];
				out.events = vec![E::SellExecuted { who, pool_id: p, asset_in: a, asset_out: b, amount_in: x, amount_out: y, fee }];
			}
			Op::Buy { who, p, a, b, fault, .. } => {
				if a == b || !self.may(p, a, SELL) || !self.may(p, b, BUY) || x < c.min_trade || fault { return None }
				let (y, fee) = self.quote(o, x)?;
				let (before, issued) = (self.reserves(p)?, self.l.total(p));
				if y > limit || self.l.get(&who, a) < y { return None }
				self.l.mv(a, &who, &acc(p), y)?;
				self.l.mv(b, &acc(p), &who, x)?;
				out.hooks = vec![Hook::Trade(p, a, b, self.hook(p, &before, issued)?)];
				out.events = vec![E::BuyExecuted { who, pool_id: p, asset_in: a, asset_out: b, amount_in: y, amount_out: x, fee }];
			}
			Op::Donate { who, p, a, .. } => { self.l.mv(a, &who, &acc(p), x)?; }
			Op::Give { who, to, p, .. } => { self.l.mv(p, &who, &to, x)?; }
		}
		Some(out)
	}
	fn ramp(&self, start: i8, len: i8) -> (u64, u64) { let s = (self.now as i64 + start as i64).max(0); (s as u64, (s + len as i64).max(0) as u64) }
}
fn same(o: RuntimeOrigin) -> RuntimeOrigin { o }

fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| x.set(c.cfg));
	set_registry(&DEC.map(|(a, d)| (a, d, 1, true)));
	set_fault(false);
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: 1, ..Default::default() };
	let mut bal = vec![];
	for w in 1..=3u64 { for a in 0..=6u32 { let v = 1u128 << (108 + w); bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts: Vec<u64> = vec![1, 2, 3, acc(100), acc(101), acc(102), acc(103), 77];
	let assets: Vec<AssetId> = vec![0, 1, 2, 3, 4, 5, 6, 100, 101, 102, 103];
	let mut ops = vec![];
	for (i, (a, amp, fee, x)) in c.pools.iter().enumerate() {
		let p = POOLS[i];
		ops.push(Op::Create { root: true, share: p, assets: a.clone(), amp: *amp, fee: *fee, fault: false });
		ops.push(Op::Add { who: 1, p, x: a.iter().zip(x).map(|(a, v)| (*a, A::Abs(*v))).collect(), all: None, fault: false });
	}
	ops.extend(c.ops.iter().cloned());
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in ops.iter().enumerate() {
			let o = &model.resolve(o);
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			let adds = if let Op::Add { p, x, all, .. } = o { model.adds(*p, x, *all) } else { vec![] };
			let q = model.quote(o, x);
			let exact = q.map(|q| q.0);
			let limit = match o { Op::AddShares { lim, .. } | Op::Withdraw { lim, .. } | Op::Buy { lim, .. } => lim.max(exact), Op::RemoveOne { lim, .. } | Op::Sell { lim, .. } => lim.min(exact), _ => 0 };
			// quotes of the router interface are what will be executed
			let quoted = match o {
				Op::AddShares { p, a, .. } => Some(Stable::calculate_buy(PoolType::Stableswap(*p), *a, *p, x)),
				Op::Withdraw { p, a, .. } => Some(Stable::calculate_buy(PoolType::Stableswap(*p), *p, *a, x)),
				Op::Buy { p, a, b, .. } if a != p && b != p => Some(Stable::calculate_buy(PoolType::Stableswap(*p), *a, *b, x)),
				Op::RemoveOne { p, a, .. } => Some(Stable::calculate_sell(PoolType::Stableswap(*p), *p, *a, x)),
				Op::Sell { p, a, b, .. } if a != p && b != p => Some(Stable::calculate_sell(PoolType::Stableswap(*p), *a, *b, x)),
				_ => None,
			};
			let mut next = model.clone();
			let want = next.step(o, x, limit, &adds);
			if let (Some(_), Some(e), Some(qd)) = (&want, exact, &quoted) { ensure_that!(qd.as_ref().ok() == Some(&e), "{}: quoted {qd:?}, executes {e}", what()); }
			if let (Some(_), Op::Add { p, .. }) = (&want, o) {
				if adds.len() == 1 {
					let s = next.l.total(*p) - model.l.total(*p);
					let qd = Stable::calculate_sell(PoolType::Stableswap(*p), adds[0].0, *p, adds[0].1);
					ensure_that!(qd.as_ref().ok() == Some(&s), "{}: quoted {qd:?} shares, executes {s}", what());
				}
			}
			if let Op::AddShares { p, a, .. } | Op::Withdraw { p, a, .. } | Op::RemoveOne { p, a, .. } | Op::Sell { p, a, .. } | Op::Buy { p, a, .. } = *o {
				let b = if let Op::Sell { b, .. } | Op::Buy { b, .. } = *o { b } else { p };
				router_view(&model, p, a, b, x).map_err(|e| format!("{}: {e}", what()))?;
				if b == p { router_view(&model, p, b, a, x).map_err(|e| format!("{}: {e}", what()))?; }
			}
			take_acts();
			SEEN.with(|s| s.borrow_mut().clear());
			System::reset_events();
			let org = |r: &bool| if *r { RawOrigin::Root.into() } else { RuntimeOrigin::from(RawOrigin::Signed(1)) };
			let sg = |w: &u64| same(RawOrigin::Signed(*w).into());
			let flat = |r: Result<(), hydradx_traits::router::ExecutorError<DispatchError>>| r.map_err(|e| match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => "not supported".into() });
			set_fault(matches!(o, Op::Create { fault: true, .. } | Op::Add { fault: true, .. } | Op::AddShares { fault: true, .. } | Op::RemoveOne { fault: true, .. } | Op::Withdraw { fault: true, .. } | Op::Sell { fault: true, .. } | Op::Buy { fault: true, .. }));
			let got = atomic(what, || match o {
				Op::Create { root, share, assets, amp, fee, .. } => Stable::create_pool(org(root), *share, assets.clone(), *amp, Permill::from_parts(*fee)),
				Op::Fee { root, p, fee } => Stable::update_pool_fee(org(root), *p, Permill::from_parts(*fee)),
				Op::Ramp { root, p, to, start, len } => { let (s, e) = model.ramp(*start, *len); Stable::update_amplification(org(root), *p, *to, s, e) }
				Op::Next(n) => { System::set_block_number(model.now + *n as u64); Ok(()) }
				Op::State { root, p, a, bits } => Stable::set_asset_tradable_state(org(root), *p, *a, Tradability::from_bits(*bits).unwrap()),
				Op::Add { who, p, .. } => Stable::add_liquidity(sg(who), *p, adds.iter().map(|(a, v)| AssetAmount::new(*a, *v)).collect()),
				Op::AddShares { who, p, a, route, .. } => if *route { flat(<Stable as TradeExecution<_, _, _, _>>::execute_buy(sg(who), PoolType::Stableswap(*p), *a, *p, x, limit)) } else { Stable::add_liquidity_shares(sg(who), *p, x, *a, limit) },
				Op::RemoveOne { who, p, a, route, .. } => if *route { flat(<Stable as TradeExecution<_, _, _, _>>::execute_sell(sg(who), PoolType::Stableswap(*p), *p, *a, x, limit)) } else { Stable::remove_liquidity_one_asset(sg(who), *p, *a, x, limit) },
				Op::Withdraw { who, p, a, route, .. } => if *route { flat(<Stable as TradeExecution<_, _, _, _>>::execute_buy(sg(who), PoolType::Stableswap(*p), *p, *a, x, limit)) } else { Stable::withdraw_asset_amount(sg(who), *p, *a, x, limit) },
				Op::Sell { who, p, a, b, route, .. } => if *route && a != p && b != p { flat(<Stable as TradeExecution<_, _, _, _>>::execute_sell(sg(who), PoolType::Stableswap(*p), *a, *b, x, limit)) } else { Stable::sell(sg(who), *p, *a, *b, x, limit) },
				Op::Buy { who, p, a, b, route, .. } => if *route && a != p && b != p { flat(<Stable as TradeExecution<_, _, _, _>>::execute_buy(sg(who), PoolType::Stableswap(*p), *a, *b, x, limit)) } else { Stable::buy(sg(who), *p, *b, *a, x, limit) },
				Op::Donate { who, p, a, .. } => Tokens::transfer(sg(who), acc(*p), *a, x),
				Op::Give { who, to, p, .. } => Tokens::transfer(sg(who), *to, *p, x),
			})?;
			set_fault(false);
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			model = next;
			ensure_eq!(SEEN.with(|s| s.borrow_mut().drain(..).collect::<Vec<_>>()), out.hooks, "{}: hooks", what());
			ensure_eq!(take_acts(), out.acts, "{}: accounts put on the list", what());
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Stable(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out.events, "{}: events", what());
			match o { Op::Sell { .. } | Op::Buy { .. } => { m.nontrivial(); m.label("trade") } Op::Add { .. } => m.label("add"), Op::AddShares { .. } => m.label("add shares"), Op::RemoveOne { .. } => m.label("remove"), Op::Withdraw { .. } => m.label("withdraw"), Op::Ramp { .. } => m.label("ramp"), _ => {} }
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for p in POOLS {
				let want = model.pools.get(&p).map(|p| PoolInfo { assets: p.assets.clone().try_into().unwrap(), initial_amplification: NonZeroU16::new(p.a0).unwrap(), final_amplification: NonZeroU16::new(p.a1).unwrap(), initial_block: p.b0, final_block: p.b1, fee: Permill::from_parts(p.fee) });
				ensure_eq!(Stable::pools(p), want, "{}: pool {p}", what());
				for a in &assets { ensure_eq!(Stable::asset_tradability(p, *a).bits(), model.state.get(&(p, *a)).copied().unwrap_or(15), "{}: state of {a} in {p}", what()); }
			}
		}
		Ok(())
	})
}
/// The pool as the router sees it: price and depth of a pair.
fn router_view(model: &M, p: AssetId, a: AssetId, b: AssetId, x: u128) -> Res {
	let k = PoolType::Stableswap(p);
	let price = model.pools.get(&p).and_then(|pl| {
		let r = pl.assets.iter().copied().zip(model.reserves(p)?).collect();
		sm::calculate_spot_price(p, r, model.amp(pl), a, b, model.l.total(p), cfg().min_trade, Some(Permill::from_parts(pl.fee)))
	});
	ensure_eq!(routed::value(Stable::calculate_spot_price_with_fee(k, a, b))?, price, "price with fee of {a}/{b}");
	ensure_eq!(routed::value(Stable::get_liquidity_depth(k, a, b))?, Some(model.l.get(&acc(p), a)), "depth of {a}");
	if !model.pools.contains_key(&p) { ensure_eq!((routed::value(Stable::calculate_sell(k, a, b, x))?, routed::value(Stable::calculate_buy(k, a, b, x))?), (None, None), "quote of a pool that does not exist"); }
	routed::only_own::<RuntimeOrigin, Stable>(k, || RawOrigin::Signed(1).into(), a, b, x)
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("existential deposits of one; pool accounts, registry and hooks are stand-ins; amounts are those of hydra-dx-math (decided by C04-C06)");
	c.check("histories", "histories of pool administration, liquidity, trades (direct and through the router interface), block progress, donations and failing hooks against an exact ledger; non-trivial: a trade was executed", 30_000, 600_000, || case(24), run);
	std::process::exit(c.finish());
}
