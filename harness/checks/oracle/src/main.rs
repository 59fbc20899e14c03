use kit::*;
use frame_support::{traits::{Contains, Hooks}, BoundedVec};
use frame_system::RawOrigin;
use hydra_dx_math::{ema, ratio::Ratio, types::Fraction};
use hydradx_traits::{AggregatedEntry, AggregatedOracle, AggregatedPriceOracle, Liquidity, OnCreatePoolHandler, OnLiquidityChangedHandler, OnTradeHandler, OraclePeriod, Source, Volume};
use pallet_ema_oracle::{into_smoothing, Event as E, OnActivityHandler, OracleEntry, OracleError, MAX_PERIODS};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Oracle: pallet_ema_oracle });
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { max: u32, periods: Vec<u8>, all: bool }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { CFG.with(|c| c.borrow().clone()) }
const PERIODS: [OraclePeriod; 6] = [OraclePeriod::LastBlock, OraclePeriod::Short, OraclePeriod::TenMinutes, OraclePeriod::Hour, OraclePeriod::Day, OraclePeriod::Week];
/// blocks of a period
const LEN: [u128; 6] = [1, 9, 100, 600, 14_400, 100_800];
parameter_types! {
	pub Max: u32 = cfg().max;
	pub Periods: BoundedVec<OraclePeriod, ConstU32<MAX_PERIODS>> = BoundedVec::truncate_from(cfg().periods.iter().map(|i| PERIODS[*i as usize]).collect());
}
/// assets below 3 are always tracked
pub struct Tracked;
impl Contains<(Source, AssetId, AssetId)> for Tracked { fn contains(t: &(Source, AssetId, AssetId)) -> bool { cfg().all && t.1 < 3 && t.2 < 3 || pallet_ema_oracle::OracleWhitelist::<Test>::contains(t) } }
system_config!(Test, u64, ());
impl pallet_ema_oracle::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type AuthorityOrigin = frame_system::EnsureRoot<u64>;
	type BlockNumberProvider = System;
	type SupportedPeriods = Periods;
	type OracleWhitelist = Tracked;
	type MaxUniqueEntries = Max;
}
type H = OnActivityHandler<Test>;
const SRC: [Source; 2] = [*b"omnipool", *b"hydraxyk"];
type Pr = (AssetId, AssetId);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Trade { src: u8, a: Pr, x: (u128, u128), liq: (u128, u128), p: (u128, u128) },
	Liq { src: u8, a: Pr, x: (u128, u128), liq: (u128, u128), p: (u128, u128) },
	Track { root: bool, src: u8, a: Pr },
	Untrack { root: bool, src: u8, a: Pr },
	Created(Pr),
	Blocks(u64),
}
fn am() -> impl Strategy<Value = u128> { prop_oneof![6 => mag(1, 1 << 90), 1 => mag(0, u128::MAX), 1 => 0u128..4] }
fn two() -> impl Strategy<Value = (u128, u128)> { (am(), am()) }
fn price() -> impl Strategy<Value = (u128, u128)> { prop_oneof![4 => (mag(1, 1 << 90), mag(1, 1 << 90)), 2 => (1u128..1000, 1u128..1000), 1 => (mag(1, u128::MAX), mag(1, u128::MAX))] }
fn pr() -> impl Strategy<Value = Pr> { prop_oneof![10 => prop::sample::select(vec![(0u32, 1u32), (1, 0), (1, 2), (2, 1), (3, 1), (1, 3)]), 2 => (0u32..4, 0u32..4).prop_filter("distinct", |(a, b)| a != b)] }
fn op() -> impl Strategy<Value = Op> {
	let s = || 0u8..2;
	prop_oneof![
		8 => (s(), pr(), two(), two(), price()).prop_map(|(src, a, x, liq, p)| Op::Trade { src, a, x, liq, p }),
		4 => (s(), pr(), two(), two(), price()).prop_map(|(src, a, x, liq, p)| Op::Liq { src, a, x, liq, p }),
		3 => (prop::bool::weighted(0.9), s(), pr()).prop_map(|(root, src, a)| Op::Track { root, src, a }),
		1 => (prop::bool::weighted(0.9), s(), pr()).prop_map(|(root, src, a)| Op::Untrack { root, src, a }),
		1 => pr().prop_map(Op::Created),
		9 => prop_oneof![8 => Just(1u64), 4 => 1u64..20, 2 => 1u64..3000, 1 => 1u64..1_000_000].prop_map(Op::Blocks),
	]
}
type Start = (u8, Pr, (u128, u128), (u128, u128));
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, start: Vec<Start>, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	let periods = (proptest::collection::btree_set(1u8..6, 0..6), any::<prop::sample::Index>(), any::<bool>()).prop_map(|(s, i, rev)| {
		let mut v: Vec<u8> = s.into_iter().collect();
		if rev { v.reverse() }
		let at = i.index(v.len() + 1);
		v.insert(at, 0);
		v
	});
	((prop_oneof![1 => 1u32..4, 3 => 4u32..20], periods, prop::bool::weighted(0.7)).prop_map(|(max, periods, all)| Cfg { max, periods, all }),
		proptest::collection::vec((0u8..2, pr(), price(), two()), 0..3), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, start, ops)| {
		let mut seen = BTreeSet::new();
		let start = start.into_iter().filter(|s| seen.insert((s.0, ord(s.1)))).collect();
		Case { cfg, start, ops }
	})
}
fn ord(a: Pr) -> Pr { if a.0 <= a.1 { a } else { (a.1, a.0) } }
/// price of the first asset of the ordered pair, volume (a in, b out, a out, b in), liquidity, block
#[derive(Clone, Debug, PartialEq)]
struct Ent { p: (u128, u128), v: (u128, u128, u128, u128), l: (u128, u128), at: u64 }
type Raw = (Ratio, (u128, u128, u128, u128), (u128, u128));
impl Ent {
	fn raw(&self) -> Raw { (Ratio::new(self.p.0, self.p.1), self.v, self.l) }
	fn of(r: Raw, at: u64) -> Ent { Ent { p: (r.0.n, r.0.d), v: r.1, l: r.2, at } }
	fn oriented(a: Pr, p: (u128, u128), x: (u128, u128), l: (u128, u128), at: u64) -> Ent { if a.0 <= a.1 { Ent { p, v: (x.0, x.1, 0, 0), l, at } } else { Ent { p: (p.1, p.0), v: (0, 0, x.1, x.0), l: (l.1, l.0), at } } }
	fn flip(self) -> Ent { Ent { p: (self.p.1, self.p.0), v: (self.v.3, self.v.2, self.v.1, self.v.0), l: (self.l.1, self.l.0), at: self.at } }
}
fn alpha(i: usize) -> Fraction { into_smoothing(PERIODS[i]) }
#[derive(Clone, Debug, Default)]
struct M { acc: BTreeMap<(u8, Pr), Ent>, orc: BTreeMap<(u8, Pr, u8), (Ent, u64)>, list: BTreeSet<(u8, Pr)>, now: u64 }
impl M {
	fn tracked(&self, k: &(u8, Pr)) -> bool { cfg().all && k.1 .0 < 3 && k.1 .1 < 3 || self.list.contains(k) }
	fn note(&mut self, k: (u8, Pr), e: Ent) -> Option<()> {
		if !self.tracked(&k) { return Some(()) }
		if let Some(o) = self.acc.get_mut(&k) {
			let v = o.v;
			*o = e;
			let s = u128::saturating_add;
			o.v = (s(v.0, o.v.0), s(v.1, o.v.1), s(v.2, o.v.2), s(v.3, o.v.3));
			return Some(());
		}
		if self.acc.len() as u32 >= cfg().max { return None }
		self.acc.insert(k, e);
		Some(())
	}
	/// the stored value of an average brought to block `to`, in which nothing happened since the last record
	fn caught_up(&self, k: &(u8, Pr), i: u8, to: u64) -> Option<(Ent, u64)> {
		let (last, linit) = self.orc.get(&(k.0, k.1, 0))?;
		let mut now = last.clone();
		if now.at < to { now.v = (0, 0, 0, 0); now.at = to; }
		if i == 0 { return Some((now, *linit)) }
		let (e, init) = self.orc.get(&(k.0, k.1, i))?;
		if e.at >= to { return Some((e.clone(), *init)) }
		Some((Ent::of(ema::update_outdated_to_current((to - e.at) as u32, e.raw(), (Ratio::new(now.p.0, now.p.1), now.l), alpha(i as usize)), to), *init))
	}
	fn finalize(&mut self) {
		let parent = self.now - 1;
		for (k, e) in std::mem::take(&mut self.acc) {
			let mut put = vec![];
			for i in cfg().periods.iter().copied().filter(|i| *i > 0).chain([0]) {
				let v = match self.caught_up(&k, i, parent) {
					None => (e.clone(), self.now),
					Some((_, init)) if i == 0 => (e.clone(), init),
					Some((p, init)) => (Ent::of(ema::calculate_new_by_integrating_incoming(p.raw(), e.raw(), alpha(i as usize)), self.now), init),
				};
				put.push(((k.0, k.1, i), v));
			}
			self.orc.extend(put);
		}
	}
	fn step(&mut self, o: &Op) -> Option<Vec<E<Test>>> {
		match o {
			Op::Trade { src, a, x, liq, p } => { if liq.0 == 0 || liq.1 == 0 { return None } self.note((*src, ord(*a)), Ent::oriented(*a, *p, *x, *liq, self.now))?; Some(vec![]) }
			Op::Liq { src, a, liq, p, .. } => { self.note((*src, ord(*a)), Ent::oriented(*a, *p, (0, 0), *liq, self.now))?; Some(vec![]) }
			Op::Track { root, src, a } => {
				let k = (*src, ord(*a));
				if !root || !self.list.contains(&k) && self.list.len() as u32 >= cfg().max { return None }
				self.list.insert(k);
				Some(vec![E::AddedToWhitelist { source: SRC[*src as usize], assets: k.1 }])
			}
			Op::Untrack { root, src, a } => {
				let k = (*src, ord(*a));
				if !root || !self.list.remove(&k) { return None }
				self.acc.remove(&k);
				for i in cfg().periods { self.orc.remove(&(k.0, k.1, i)); }
				Some(vec![E::RemovedFromWhitelist { source: SRC[*src as usize], assets: k.1 }])
			}
			Op::Created(_) => Some(vec![]),
			Op::Blocks(n) => { self.finalize(); self.now += n; Some(vec![]) }
		}
	}
}
fn agg(e: Ent, init: u64) -> AggregatedEntry<u128, u64, Ratio> { AggregatedEntry { price: Ratio::new(e.p.0, e.p.1), volume: Volume { a_in: e.v.0, b_out: e.v.1, a_out: e.v.2, b_in: e.v.3 }, liquidity: Liquidity { a: e.l.0, b: e.l.1 }, oracle_age: e.at.saturating_sub(init) } }
fn ent(e: &Ent) -> OracleEntry<u64> { OracleEntry { price: Ratio::new(e.p.0, e.p.1), volume: e.v.into(), liquidity: e.l.into(), updated_at: e.at } }
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg.clone());
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: 1, ..Default::default() };
	for s in &c.start { for i in &c.cfg.periods { model.orc.insert((s.0, ord(s.1), *i), (Ent::oriented(s.1, s.2, (0, 0), s.3, 0), 0)); } }
	pallet_ema_oracle::GenesisConfig::<Test> { initial_data: c.start.iter().map(|s| (SRC[s.0 as usize], s.1, Ratio::new(s.2 .0, s.2 .1), s.3.into())).collect(), ..Default::default() }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let mut next = model.clone();
			let want = next.step(o);
			System::reset_events();
			let or = |root: bool| if root { RuntimeOrigin::from(RawOrigin::Root) } else { RawOrigin::Signed(1).into() };
			let s = |s: u8| SRC[s as usize];
			// refused reports may leave what was there before
			let got = atomic(what, || match o.clone() {
				Op::Trade { src, a, x, liq, p } => H::on_trade(s(src), a.0, a.1, x.0, x.1, liq.0, liq.1, Ratio::new(p.0, p.1)).map(|_| ()).map_err(|e| e.1),
				Op::Liq { src, a, x, liq, p } => H::on_liquidity_changed(s(src), a.0, a.1, x.0, x.1, liq.0, liq.1, Ratio::new(p.0, p.1)).map(|_| ()).map_err(|e| e.1),
				Op::Track { root, src, a } => Oracle::add_oracle(or(root), s(src), a),
				Op::Untrack { root, src, a } => Oracle::remove_oracle(or(root), s(src), a),
				Op::Created(a) => H::on_create_pool(a.0, a.1),
				Op::Blocks(_) => { Oracle::on_finalize(model.now); System::set_block_number(next.now); Oracle::on_initialize(next.now); Ok(()) }
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let old = std::mem::replace(&mut model, next);
			if matches!(o, Op::Blocks(_)) {
				if old.acc.keys().any(|k| old.orc.contains_key(&(k.0, k.1, 0))) { m.nontrivial(); m.label("average updated"); }
				if !old.acc.is_empty() { m.label("recorded"); }
			}
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Oracle(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out, "{}: events", what());
			let acc: BTreeMap<(Source, Pr), OracleEntry<u64>> = Oracle::accumulator().into_inner().into_iter().collect();
			ensure_eq!(acc, model.acc.iter().map(|(k, e)| ((s(k.0), k.1), ent(e))).collect::<BTreeMap<_, _>>(), "{}: collected in this block", what());
			let n = pallet_ema_oracle::Oracles::<Test>::iter().count();
			ensure_eq!(n, model.orc.len(), "{}: number of averages", what());
			ensure_eq!(pallet_ema_oracle::WhitelistedAssets::<Test>::get().into_inner(), model.list.iter().map(|k| (s(k.0), k.1)).collect::<BTreeSet<_>>(), "{}: tracked", what());
			for src in 0..2u8 { for a in 0..4u32 { for b in 0..4u32 { for i in 0..6u8 {
				let k = (src, ord((a, b)));
				let period = PERIODS[i as usize];
				if a <= b { ensure_eq!(Oracle::oracle((s(src), (a, b), period)), model.orc.get(&(src, (a, b), i)).map(|(e, at)| (ent(e), *at)), "{}: stored average {a}/{b} {period:?}", what()); }
				let got = <Oracle as AggregatedOracle<_, _, _, _>>::get_entry(a, b, period, s(src));
				let price = <Oracle as AggregatedPriceOracle<_, _, _>>::get_price(a, b, period, s(src));
				let want = if a == b { Err(OracleError::SameAsset) } else { model.caught_up(&k, i, model.now - 1).map(|(e, at)| agg(if a < b { e } else { e.flip() }, at)).ok_or(OracleError::NotPresent) };
				ensure_eq!(price, want.clone().map(|e| (e.price, e.oracle_age)), "{}: price {a}/{b} {period:?}", what());
				ensure_eq!(got, want, "{}: average {a}/{b} {period:?}", what());
			} } } }
		}
		Ok(())
	})
}
fn smoothing(_: &u8, m: &mut Meter) -> Res {
	m.nontrivial();
	for i in 0..6 {
		let want = small(b(1u128 << 127) * b(2) / b(LEN[i] + 1)).unwrap();
		ensure_that!(alpha(i).to_bits().abs_diff(want) <= 1, "smoothing factor of {:?}: {} for {want}", PERIODS[i], alpha(i).to_bits());
	}
	ensure_eq!(OraclePeriod::all_periods(), &PERIODS[..], "periods");
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("weighted means are those of hydra-dx-math (decided by C11); blocks without activity need no finalisation");
	c.check("smoothing", "smoothing factors against two over (blocks + 1)", 1, 1, || Just(0u8), smoothing);
	c.check("histories", "histories of trades and liquidity changes of several pairs and sources over blocks (also long gaps), tracking and untracking, compared after every step with an exact model of all averages in both directions; non-trivial: an existing average integrated a new value", 30_000, 400_000, || case(30), run);
	std::process::exit(c.finish());
}
