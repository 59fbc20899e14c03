use frame_support::traits::fungibles::Mutate;
use frame_system::RawOrigin;
use hydradx_traits::registry::Inspect as _;
use hydradx_traits::router::{AssetPair, ExecutorError, PoolType, RefundEdCalculator, RouteProvider, RouteSpotPriceProvider, RouterT, Trade, TradeExecution};
use kit::*;
use pallet_route_executor as pr;
use sp_runtime::FixedPointNumber;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Router: pallet_route_executor });
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());

// ---- venues: constant product pools without fee, which may misbehave
const SHARE: AssetId = 9;
const NATIVE: AssetId = 0;
const ED: u128 = 7;
const BAD: AssetId = 4; // insufficient
type K = u8;
fn kind(p: PoolType<AssetId>) -> Option<K> { match p { PoolType::Omnipool => Some(0), PoolType::XYK => Some(1), PoolType::LBP => Some(2), PoolType::Stableswap(SHARE) => Some(3), PoolType::Stableswap(_) => None } }
fn ptype(k: K) -> PoolType<AssetId> { match k { 0 => PoolType::Omnipool, 1 => PoolType::XYK, 2 => PoolType::LBP, 3 => PoolType::Stableswap(SHARE), _ => PoolType::Stableswap(55) } }
fn acc(k: K, a: AssetId, b: AssetId) -> u64 { 1000 + k as u64 * 100 + (a.min(b) * 10 + a.max(b)) as u64 }
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Mood { over: u128, under: u128, broken: bool }
#[derive(Clone, Debug, Default)]
struct Env { mood: BTreeMap<u64, Mood>, off: BTreeSet<K> }
thread_local! { static ENV: RefCell<Env> = RefCell::new(Env::default()); }
fn out_of(ra: u128, rb: u128, x: u128) -> Option<u128> { if ra == 0 || rb == 0 { None } else { quo(b(rb) * b(x), b(ra) + b(x)) } }
fn in_of(ra: u128, rb: u128, x: u128) -> Option<u128> { if ra == 0 || x >= rb { None } else { quo(b(ra) * b(x), b(rb) - b(x))?.checked_add(1) } }
pub struct Venue<const LO: u8, const HI: u8>;
type Ex<T> = Result<T, ExecutorError<DispatchError>>;
fn er<T>(x: Option<T>, s: &'static str) -> Ex<T> { x.ok_or(ExecutorError::Error(DispatchError::Other(s))) }
impl<const LO: u8, const HI: u8> Venue<LO, HI> {
	fn k(p: PoolType<AssetId>) -> Ex<K> { match kind(p) { Some(k) if k >= LO && k <= HI && ENV.with(|e| !e.borrow().off.contains(&k)) => Ok(k), _ => Err(ExecutorError::NotSupported) } }
	fn res(k: K, a: AssetId, c: AssetId) -> (u128, u128) { let p = acc(k, a, c); (Tokens::free_balance(a, &p), Tokens::free_balance(c, &p)) }
	fn exec(who: RuntimeOrigin, k: K, a: AssetId, c: AssetId, pay: u128, get: u128) -> Ex<()> {
		let w = frame_system::ensure_signed(who).map_err(|e| ExecutorError::Error(e.into()))?;
		let p = acc(k, a, c);
		let m = ENV.with(|e| e.borrow().mood.get(&p).cloned()).unwrap_or_default();
		if m.broken || pay == 0 || get == 0 { return er(None, "broken") }
		let f = |r: DispatchResult| r.map_err(ExecutorError::Error);
		f(<Tokens as MultiCurrency<u64>>::transfer(a, &w, &p, pay.saturating_sub(m.under)))?;
		f(<Tokens as MultiCurrency<u64>>::transfer(c, &p, &w, er(get.checked_add(m.over), "over")?))
	}
}
impl<const LO: u8, const HI: u8> TradeExecution<RuntimeOrigin, u64, AssetId, u128> for Venue<LO, HI> {
	type Error = DispatchError;
	fn calculate_sell(p: PoolType<AssetId>, a: AssetId, c: AssetId, x: u128) -> Ex<u128> { let k = Self::k(p)?; let (ra, rb) = Self::res(k, a, c); er(out_of(ra, rb, x), "quote") }
	fn calculate_buy(p: PoolType<AssetId>, a: AssetId, c: AssetId, x: u128) -> Ex<u128> { let k = Self::k(p)?; let (ra, rb) = Self::res(k, a, c); er(in_of(ra, rb, x), "quote") }
	fn execute_sell(who: RuntimeOrigin, p: PoolType<AssetId>, a: AssetId, c: AssetId, x: u128, min: u128) -> Ex<()> {
		let k = Self::k(p)?;
		let (ra, rb) = Self::res(k, a, c);
		let y = er(out_of(ra, rb, x), "exec")?;
		if y < min { return er(None, "limit") }
		Self::exec(who, k, a, c, x, y)
	}
	fn execute_buy(who: RuntimeOrigin, p: PoolType<AssetId>, a: AssetId, c: AssetId, x: u128, max: u128) -> Ex<()> {
		let k = Self::k(p)?;
		let (ra, rb) = Self::res(k, a, c);
		let y = er(in_of(ra, rb, x), "exec")?;
		if y > max { return er(None, "limit") }
		Self::exec(who, k, a, c, y, x)
	}
	fn get_liquidity_depth(p: PoolType<AssetId>, a: AssetId, c: AssetId) -> Ex<u128> {
		let k = Self::k(p)?;
		er(depth(k, a, c, |w, a| Tokens::free_balance(a, &w)), "depth")
	}
	fn calculate_spot_price_with_fee(p: PoolType<AssetId>, a: AssetId, c: AssetId) -> Ex<FixedU128> { let k = Self::k(p)?; let (ra, rb) = Self::res(k, a, c); er(FixedU128::checked_from_rational(ra, rb), "price") }
}
/// the hub pool only answers for the native asset, a stable pool only for its share
fn depth(k: K, a: AssetId, c: AssetId, bal: impl Fn(u64, AssetId) -> u128) -> Option<u128> {
	let x = match k { 0 if c != NATIVE => return None, 3 if c != SHARE => return None, 0 | 3 => ALL.iter().map(|o| bal(acc(k, a, *o), a)).max().unwrap(), _ => bal(acc(k, a, c), a) };
	if x == 0 { None } else { Some(x) }
}
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(a: AssetId) -> bool { a != BAD }
	fn exists(_: AssetId) -> bool { true }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
pub struct Refund;
impl RefundEdCalculator<u128> for Refund { fn calculate() -> u128 { ED } }
parameter_types! { pub const Native: AssetId = NATIVE; pub Default0: PoolType<AssetId> = PoolType::Omnipool; }
impl pr::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Balance = u128;
	type NativeAssetId = Native;
	type Currency = Tokens;
	type InspectRegistry = Reg;
	type AMM = (Venue<0, 0>, Venue<1, 2>, Venue<3, 3>);
	type EdToRefundCalculator = Refund;
	type DefaultRoutePoolType = Default0;
	type TechnicalOrigin = frame_system::EnsureRoot<u64>;
	type WeightInfo = ();
}
const ALL: [AssetId; 6] = [0, 1, 2, 3, BAD, SHARE];

type Hop = (K, AssetId, AssetId);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Sell { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: Vec<Hop>, via: bool },
	Buy { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: Vec<Hop>, via: bool },
	Set { who: Option<u64>, a: AssetId, b: AssetId, route: Vec<Hop> },
	Force { root: bool, a: AssetId, b: AssetId, route: Vec<Hop> },
	Mood { k: K, a: AssetId, b: AssetId, m: Mood },
	Off(K, bool),
	Send { who: u64, k: K, a: AssetId, b: AssetId, x: A },
	Give { who: u64, to: u64, a: AssetId, x: A },
}
fn asset() -> impl Strategy<Value = AssetId> { prop_oneof![5 => Just(0u32), 5 => Just(1), 5 => Just(2), 3 => Just(3), 2 => Just(BAD), 1 => Just(SHARE)] }
fn k() -> impl Strategy<Value = K> { prop_oneof![4 => Just(0u8), 5 => Just(1), 2 => Just(2), 3 => Just(3), 1 => Just(9)] }
fn who() -> impl Strategy<Value = u64> { 1u64..=3 }
/// a path of assets with venues; mostly well formed and over distinct neighbours
fn path() -> impl Strategy<Value = (AssetId, AssetId, Vec<Hop>)> {
	const EDGES: [Hop; 9] = [(0, 0, 1), (0, 0, 2), (0, 1, 2), (1, 0, 1), (1, 1, 2), (1, 0, 2), (2, 1, 3), (3, 2, SHARE), (1, BAD, 0)];
	let walk = (asset(), proptest::collection::vec(any::<u8>(), 1..=4)).prop_map(|(a, c)| {
		let mut v = vec![(a, 0u8)];
		for x in c {
			let cur = v[v.len() - 1].0;
			let from = if v.len() > 1 { v[v.len() - 2].0 } else { 99 };
			let mut e: Vec<(AssetId, K)> = EDGES.iter().filter_map(|h| if h.1 == cur { Some((h.2, h.0)) } else if h.2 == cur { Some((h.1, h.0)) } else { None }).collect();
			if x > 12 && e.iter().any(|t| t.0 != from) { e.retain(|t| t.0 != from); }
			v.push(e[x as usize % e.len()]);
		}
		v
	});
	(prop_oneof![6 => walk, 1 => proptest::collection::vec((asset(), k()), 2..=4)], prop::bool::weighted(0.03), prop::option::weighted(0.06, (any::<usize>(), asset())), prop::bool::weighted(0.25), prop::option::weighted(0.04, asset()))
		.prop_map(|(p, long, twist, empty, off)| {
			let mut p = p;
			if long { let q = p.clone(); p.extend(q); }
			let mut route: Vec<Hop> = vec![];
			let mut cur = p[0].0;
			for (a, k) in &p[1..] { let to = if *a == cur { if cur == 1 { 2 } else { 1 } } else { *a }; route.push((*k, cur, to)); cur = to; }
			let (mut a, b) = (p[0].0, cur);
			if let Some((i, x)) = twist { let n = route.len(); let h = &mut route[i % n]; if i % 2 == 0 { h.1 = x } else { h.2 = x } }
			if let Some(x) = off { a = x }
			if empty { route.clear(); }
			(a, b, route)
		})
}
fn op() -> impl Strategy<Value = Op> {
	let mood = prop_oneof![4 => Just(Mood::default()), 2 => (2u128..20).prop_map(|over| Mood { over, ..Default::default() }), 2 => (2u128..20).prop_map(|under| Mood { under, ..Default::default() }), 1 => Just(Mood { broken: true, ..Default::default() })];
	let set = || (path(), prop::bool::weighted(0.25)).prop_map(|((a, b, r), rev)| if rev { (b, a, r) } else { (a, b, r) });
	prop_oneof![
		9 => (who(), path(), small_amt(), lim(), any::<bool>()).prop_map(|(who, (a, b, route), x, lim, via)| Op::Sell { who, a, b, x, lim, route, via }),
		9 => (who(), path(), small_amt(), lim(), any::<bool>()).prop_map(|(who, (a, b, route), x, lim, via)| Op::Buy { who, a, b, x, lim, route, via }),
		6 => (prop::option::weighted(0.95, who()), path()).prop_map(|(who, (a, b, route))| Op::Set { who, a, b, route }),
		3 => (prop::bool::weighted(0.9), set()).prop_map(|(root, (a, b, route))| Op::Force { root, a, b, route }),
		3 => (k(), asset(), asset(), mood).prop_map(|(k, a, b, m)| Op::Mood { k, a, b, m }),
		1 => (k(), prop::bool::weighted(0.3)).prop_map(|(k, off)| Op::Off(k, off)),
		2 => (who(), k(), asset(), asset(), small_amt()).prop_map(|(who, k, a, b, x)| Op::Send { who, k, a, b, x }),
		1 => (who(), who(), asset(), amt()).prop_map(|(who, to, a, x)| Op::Give { who, to, a, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { funds: Vec<u128>, pools: Vec<(K, AssetId, AssetId, u128, u128)>, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	let m = || prop_oneof![1 => mag(1, 1 << 90), 4 => mag(1 << 20, 1 << 70)];
	// neighbours of the same size keep most routes alive
	let pool = |k: K, a: AssetId, c: AssetId| prop_oneof![3 => (m(), 500_000u32..2_000_000).prop_map(move |(x, r)| (k, a, c, x, md(x, r as u128, 1_000_000).unwrap())), 1 => (m(), m()).prop_map(move |(x, y)| (k, a, c, x, y))];
	let fixed = (pool(0, 0, 1), pool(0, 0, 2), pool(0, 1, 2), pool(1, 0, 1), pool(1, 1, 2), pool(1, 0, 2), pool(2, 1, 3), pool(3, 2, SHARE), pool(1, BAD, 0)).prop_map(|(a, b, c, d, e, f, g, h, i)| vec![a, b, c, d, e, f, g, h, i]);
	let more = proptest::collection::vec((0u8..4, asset(), asset(), m(), m()), 0..8);
	(proptest::collection::vec(prop_oneof![3 => Just(1u128 << 90), 1 => mag(1, 1 << 90)], 18), fixed, more, proptest::collection::vec(op(), 1..n)).prop_map(|(funds, f, more, ops)| {
		let mut pools: Vec<(K, AssetId, AssetId, u128, u128)> = f;
		for p in more { if p.1 != p.2 && !pools.iter().any(|q| acc(q.0, q.1, q.2) == acc(p.0, p.1, p.2)) { pools.push(p); } }
		Case { funds, pools, ops }
	})
}

#[derive(Clone, Debug, Default)]
struct M { l: Ledger, routes: BTreeMap<(AssetId, AssetId), Vec<Hop>>, env: Env }
fn ord(a: AssetId, b: AssetId) -> (AssetId, AssetId) { (a.min(b), a.max(b)) }
fn inv(r: &[Hop]) -> Vec<Hop> { r.iter().rev().map(|h| (h.0, h.2, h.1)).collect() }
impl M {
	fn usable(&self, k: K) -> bool { k <= 3 && !self.env.off.contains(&k) }
	fn res(&self, h: &Hop) -> (u128, u128) { let p = acc(h.0, h.1, h.2); (self.l.get(&p, h.1), self.l.get(&p, h.2)) }
	fn known(&self, a: AssetId, b: AssetId) -> Vec<Hop> { match self.routes.get(&ord(a, b)) { Some(r) => if a <= b { r.clone() } else { inv(r) }, None => vec![(0, a, b)] } }
	fn pick(&self, a: AssetId, b: AssetId, r: &[Hop]) -> Vec<Hop> { if r.is_empty() { self.known(a, b) } else { r.to_vec() } }
	fn fits(a: AssetId, b: AssetId, r: &[Hop]) -> bool { !r.is_empty() && r[0].1 == a && r[r.len() - 1].2 == b && r.windows(2).all(|w| w[0].2 == w[1].1) }
	/// (in, out) of each hop
	fn sells(&self, r: &[Hop], x: u128) -> Option<Vec<(u128, u128)>> {
		let mut x = x;
		r.iter().map(|h| { if !self.usable(h.0) { return None } let (ra, rb) = self.res(h); let y = out_of(ra, rb, x)?; let t = (x, y); x = y; Some(t) }).collect()
	}
	fn buys(&self, r: &[Hop], x: u128) -> Option<Vec<(u128, u128)>> {
		let mut x = x;
		let mut v = r.iter().rev().map(|h| { if !self.usable(h.0) { return None } let (ra, rb) = self.res(h); let y = in_of(ra, rb, x)?; let t = (y, x); x = y; Some(t) }).collect::<Option<Vec<_>>>()?;
		v.reverse();
		Some(v)
	}
	fn hop(&mut self, who: u64, h: &Hop, x: u128, limit: u128, sell: bool) -> Option<()> {
		let (ra, rb) = self.res(h);
		let y = if sell { out_of(ra, rb, x)? } else { in_of(ra, rb, x)? };
		if sell && y < limit || !sell && y > limit { return None }
		let (pay, get) = if sell { (x, y) } else { (y, x) };
		let p = acc(h.0, h.1, h.2);
		let m = self.env.mood.get(&p).cloned().unwrap_or_default();
		if m.broken || pay == 0 || get == 0 { return None }
		self.l.mv(h.1, &who, &p, pay.saturating_sub(m.under))?;
		self.l.mv(h.2, &p, &who, get.checked_add(m.over)?)
	}
	fn at_most(a: AssetId, c: AssetId, before: u128, after: u128, want: u128) -> Option<()> {
		let got = after.checked_sub(before)?;
		let slack = if a == BAD && c == NATIVE { ED } else { 0 };
		if got <= want.saturating_add(slack) { Some(()) } else { None }
	}
	fn sell(&mut self, who: u64, a: AssetId, c: AssetId, x: u128, min: u128, r: &[Hop]) -> Option<(u128, u128)> {
		if a == c || r.len() > 5 { return None }
		let r = self.pick(a, c, r);
		if !Self::fits(a, c, &r) { return None }
		let t = self.sells(&r, x)?;
		let y = t.last()?.1;
		if y < min { return None }
		let start = self.l.get(&who, c);
		for (h, (i, o)) in r.iter().zip(&t) {
			let before = self.l.get(&who, h.1);
			self.hop(who, h, *i, *o, true)?;
			if before.checked_sub(self.l.get(&who, h.1))? < *i { return None }
		}
		Self::at_most(a, c, start, self.l.get(&who, c), y)?;
		Some((x, y))
	}
	fn buy(&mut self, who: u64, a: AssetId, c: AssetId, x: u128, max: u128, r: &[Hop]) -> Option<(u128, u128)> {
		if a == c || r.len() > 5 { return None }
		let r = self.pick(a, c, r);
		if !Self::fits(a, c, &r) { return None }
		let t = self.buys(&r, x)?;
		let y = t[0].0;
		if y > max { return None }
		let start = self.l.get(&who, a);
		for (h, (i, o)) in r.iter().zip(&t) {
			let before = self.l.get(&who, h.2);
			self.hop(who, h, *o, *i, false)?;
			Self::at_most(h.1, h.2, before, self.l.get(&who, h.2), *o)?;
		}
		if start.checked_sub(self.l.get(&who, a))? < y { return None }
		Some((y, x))
	}
	fn reference(&self, r: &[Hop]) -> Option<u128> {
		let h = r.first()?;
		if !self.usable(h.0) { return None }
		Some(depth(h.0, h.1, match h.0 { 0 => NATIVE, 3 => SHARE, _ => h.2 }, |w, a| self.l.get(&w, a))? / 100)
	}
	/// sale by an account that is given the amount, without effect
	fn dry(&self, r: &[Hop], x: u128) -> Option<u128> {
		let (a, c) = (r.first()?.1, r.last()?.2);
		let mut s = self.clone();
		let me = Router::router_account();
		let _ = s.l.mint(&me, a, x);
		s.sell(me, a, c, x, 0, r)?;
		Some(s.l.get(&me, c))
	}
	fn works(&self, r: &[Hop]) -> Option<(u128, u128)> {
		let i = inv(r);
		let (x, y) = (self.reference(r)?, self.reference(&i)?);
		match (self.dry(r, x), self.dry(&i, y)) { (Some(_), Some(_)) => Some((x, y)), (None, Some(o)) => { self.dry(r, o)?; Some((o, y)) } (Some(o), None) => { self.dry(&i, o)?; Some((x, o)) } (None, None) => None }
	}
	fn set(&mut self, a: AssetId, c: AssetId, r: &[Hop]) -> Option<()> {
		if r.len() > 5 || !Self::fits(a, c, r) || r.iter().any(|h| h.1 == BAD || h.2 == BAD) { return None }
		let (p, r) = if a <= c { ((a, c), r.to_vec()) } else { ((c, a), inv(r)) };
		let old = self.known(p.0, p.1);
		match self.works(&old) {
			Some((x, y)) => {
				let i = inv(&r);
				match (self.dry(&r, x), self.dry(&i, y)) { (Some(_), Some(_)) => (), (None, Some(o)) => { self.dry(&r, o)?; } (Some(o), None) => { self.dry(&i, o)?; } _ => return None }
				let q = |r: &[Hop], x: u128| Some(self.sells(r, x)?.last()?.1);
				if q(&r, x)? <= q(&old, x)? || q(&i, y)? <= q(&inv(&old), y)? { return None }
			}
			None => { self.works(&r)?; }
		}
		self.routes.insert(p, r);
		Some(())
	}
	fn amount(&self, o: &Op) -> u128 {
		match o {
			Op::Sell { a, b, x, route, .. } => x.of(self.pick(*a, *b, route).first().map_or(0, |h| self.res(h).0)),
			Op::Buy { a, b, x, route, .. } => x.of(self.pick(*a, *b, route).last().map_or(0, |h| self.res(h).1)),
			Op::Send { who, a, x, .. } | Op::Give { who, a, x, .. } => x.of(self.l.get(who, *a)),
			_ => 0,
		}
	}
	fn quote(&self, o: &Op, x: u128) -> Option<u128> {
		match o {
			Op::Sell { a, b, route, .. } => Some(self.sells(&self.pick(*a, *b, route), x)?.last()?.1),
			Op::Buy { a, b, route, .. } => Some(self.buys(&self.pick(*a, *b, route), x)?.first()?.0),
			_ => None,
		}
	}
	fn step(&mut self, o: &Op, x: u128, limit: u128) -> Option<Option<pr::Event<Test>>> {
		let upd = |a: AssetId, c: AssetId| { let p = ord(a, c); Some(Some(pr::Event::RouteUpdated { asset_ids: vec![p.0, p.1] })) };
		match o {
			Op::Sell { who, a, b, route, .. } => { let (i, y) = self.sell(*who, *a, *b, x, limit, route)?; Some(Some(pr::Event::Executed { asset_in: *a, asset_out: *b, amount_in: i, amount_out: y })) }
			Op::Buy { who, a, b, route, .. } => { let (i, y) = self.buy(*who, *a, *b, x, limit, route)?; Some(Some(pr::Event::Executed { asset_in: *a, asset_out: *b, amount_in: i, amount_out: y })) }
			Op::Set { who, a, b, route } => { (*who)?; self.set(*a, *b, route)?; upd(*a, *b) }
			Op::Force { root, a, b, route } => {
				if !root || route.len() > 5 { return None }
				self.routes.insert(ord(*a, *b), if a <= b { route.clone() } else { inv(route) });
				upd(*a, *b)
			}
			Op::Mood { k, a, b, m } => { self.env.mood.insert(acc(*k, *a, *b), m.clone()); Some(None) }
			Op::Off(k, off) => { if *off { self.env.off.insert(*k); } else { self.env.off.remove(k); } Some(None) }
			Op::Send { who, k, a, b, .. } => { self.l.mv(*a, who, &acc(*k, *a, *b), x)?; Some(None) }
			Op::Give { who, to, a, .. } => { self.l.mv(*a, who, to, x)?; Some(None) }
		}
	}
}
fn trades(r: &[Hop]) -> Vec<Trade<AssetId>> { r.iter().map(|h| Trade { pool: ptype(h.0), asset_in: h.1, asset_out: h.2 }).collect() }

#[allow(non_snake_case)]
fn B(x: u128) -> U1024 { b(x) }
fn run(c: &Case, m: &mut Meter) -> Res {
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M::default();
	let mut bal = vec![];
	for (i, v) in c.funds.iter().enumerate() { let (w, a) = (1 + i as u64 % 3, ALL[i / 3]); bal.push((w, a, *v)); model.l.mint(&w, a, *v); }
	for (k, a, d, x, y) in &c.pools { let p = acc(*k, *a, *d); for (t, v) in [(*a, *x), (*d, *y)] { if v > 0 { bal.push((p, t, v)); model.l.mint(&p, t, v); } } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let mut accounts: Vec<u64> = vec![1, 2, 3];
	for k in [0, 1, 2, 3, 9] { for a in ALL { for b in ALL { if a <= b { accounts.push(acc(k, a, b)); } } } }
	fresh(st, || {
		accounts.push(Router::router_account());
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			let exact = model.quote(o, x);
			let limit = match o { Op::Buy { lim, .. } => lim.max(exact), Op::Sell { lim, .. } => lim.min(exact), _ => 0 };
			let mut next = model.clone();
			let want = next.step(o, x, limit);
			ENV.with(|e| *e.borrow_mut() = model.env.clone());
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			// quotes
			if let Op::Sell { a, b, route, .. } | Op::Buy { a, b, route, .. } = o {
				let r = model.pick(*a, *b, route);
				let (g, w) = if matches!(o, Op::Sell { .. }) { (<Router as RouterT<_, _, _, _, _>>::calculate_sell_trade_amounts(&trades(&r), x), model.sells(&r, x)) } else { (<Router as RouterT<_, _, _, _, _>>::calculate_buy_trade_amounts(&trades(&r), x), model.buys(&r, x)) };
				let mut g = g.ok().map(|v| v.into_iter().map(|t| (t.amount_in, t.amount_out)).collect::<Vec<_>>());
				if matches!(o, Op::Buy { .. }) { if let Some(g) = &mut g { g.reverse() } }
				ensure_eq!(g, w, "{}: quoted amounts", what());
				// price of the route: product over its hops
				let hops: Option<Vec<u128>> = r.iter().map(|h| { if !model.usable(h.0) { return None } let (ra, rb) = model.res(h); quo(B(ra) * B(1_000_000_000_000_000_000), B(rb)) }).collect();
				let p = Router::spot_price_with_fee(&trades(&r)).map(|p| p.into_inner());
				if r.len() > 6 { } else if let (Some(h), false) = (&hops, r.is_empty()) {
					let n = h.iter().fold(B(1), |t, x| t * B(*x));
					let d = (1..h.len()).fold(B(1), |t, _| t * B(1_000_000_000_000_000_000));
					let e = n / d;
					if let Some(p) = p {
						let diff = if B(p) > e { B(p) - e } else { e - B(p) };
						ensure_that!(diff <= B(2) + (e >> 57), "{}: route price {p}, expected {e}", what());
						m.label("price");
					} else { ensure_that!(h.len() > 4 || e >> 128 > B(0) || e.is_zero() || n >> 511 > B(0), "{}: no price, expected {e}", what()); }
				} else { ensure_that!(p.is_none(), "{}: price of a route that cannot be traded", what()); }
			}
			let mut free = false;
			let got = atomic(what, || match o {
				Op::Sell { who, a, b, route, via, .. } => if *via { <Router as RouterT<_, _, _, _, _>>::sell(sg(*who), *a, *b, x, limit, trades(route)) } else { Router::sell(sg(*who), *a, *b, x, limit, trades(route)) },
				Op::Buy { who, a, b, route, via, .. } => if *via { <Router as RouterT<_, _, _, _, _>>::buy(sg(*who), *a, *b, x, limit, trades(route)) } else { Router::buy(sg(*who), *a, *b, x, limit, trades(route)) },
				Op::Set { who, a, b, route } => Router::set_route(who.map_or(RawOrigin::Root.into(), sg), AssetPair::new(*a, *b), trades(route)).map(|p| free = p.pays_fee == frame_support::dispatch::Pays::No).map_err(|e| e.error),
				Op::Force { root, a, b, route } => Router::force_insert_route(if *root { RawOrigin::Root.into() } else { sg(1) }, AssetPair::new(*a, *b), trades(route)).map(|p| free = p.pays_fee == frame_support::dispatch::Pays::No).map_err(|e| e.error),
				Op::Mood { .. } | Op::Off(..) => Ok(()),
				Op::Send { who, k, a, b, .. } => Tokens::transfer(sg(*who), acc(*k, *a, *b), *a, x),
				Op::Give { who, to, a, .. } => Tokens::transfer(sg(*who), *to, *a, x),
			})?;
			agree(what, &got, &want)?;
			let Some(ev) = want else { m.label("refused"); continue };
			model = next;
			match o {
				Op::Sell { route, .. } | Op::Buy { route, .. } => { m.nontrivial(); m.label(if route.is_empty() { "trade on stored route" } else if route.len() > 1 { "trade over several hops" } else { "trade" }) }
				Op::Set { .. } => { m.nontrivial(); m.label("set route"); ensure_that!(free, "{}: setter pays", what()) }
				_ => {}
			}
			let got: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Router(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(got, ev.into_iter().collect::<Vec<_>>(), "{}: events", what());
			same_ledger(&model.l, &accounts, &ALL, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for a in ALL { for b in ALL {
				let want = model.routes.get(&(a, b)).map(|r| trades(r));
				ensure_eq!(Router::route(AssetPair::new(a, b)).map(|r| r.to_vec()), want, "{}: stored route {a}/{b}", what());
				ensure_eq!(<Router as RouteProvider<AssetId>>::get_route(AssetPair::new(a, b)), trades(&model.known(a, b)), "{}: route {a}/{b}", what());
			} }
		}
		let _ = (<Tokens as Mutate<u64>>::mint_into(0, &1, 0), Reg::is_sufficient(0));
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("venues are constant-product stand-ins that may be switched off, break, overpay or undercharge (by two units or more); they enforce the limits they are given");
	c.check("histories", "histories of routed trades, route updates (validated and forced), misbehaving venues and transfers against an exact ledger; non-trivial: a routed trade or a validated route", 20_000, 400_000, || case(24), run);
	std::process::exit(c.finish());
}
