use kit::*;
use frame_support::{storage::with_storage_layer, traits::{Contains, Hooks}};
use frame_system::RawOrigin;
use pallet_circuit_breaker::Event as E;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Breaker: pallet_circuit_breaker });
type F = (u32, u32);
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { trade: F, add: Option<F>, remove: Option<F> }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { CFG.with(|c| *c.borrow()) }
const HUB: AssetId = 1;
const EXEMPT: u64 = 4;
const ADMIN: u64 = 9;
parameter_types! {
	pub Trade: F = cfg().trade;
	pub Add: Option<F> = cfg().add;
	pub Remove: Option<F> = cfg().remove;
	pub Hub: AssetId = HUB;
}
pub struct Exempt;
impl Contains<u64> for Exempt { fn contains(w: &u64) -> bool { *w == EXEMPT } }
pub struct Admin;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Admin {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(ADMIN) => Ok(ADMIN), _ => Err(o) } }
}
system_config!(Test, u64, ());
impl pallet_circuit_breaker::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Balance = u128;
	type TechnicalOrigin = Admin;
	type WhitelistedAccounts = Exempt;
	type DefaultMaxNetTradeVolumeLimitPerBlock = Trade;
	type DefaultMaxAddLiquidityLimitPerBlock = Add;
	type DefaultMaxRemoveLiquidityLimitPerBlock = Remove;
	type OmnipoolHubAsset = Hub;
	type WeightInfo = ();
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Who { Root, Nobody, User(u64) }
impl Who { fn origin(self) -> RuntimeOrigin { match self { Who::Root => RawOrigin::Root.into(), Who::Nobody => RawOrigin::None.into(), Who::User(w) => RawOrigin::Signed(w).into() } } }
/// Amounts are relative to what is left until the limit.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Trade { a: AssetId, ra: u128, x: A, b: AssetId, rb: u128, y: A },
	Liq { who: Who, a: AssetId, r: u128, x: A, add: bool },
	SetTrade { who: Who, a: AssetId, f: F },
	SetLiq { who: Who, a: AssetId, f: Option<F>, add: bool },
	Block,
}
fn frac() -> impl Strategy<Value = F> { prop_oneof![5 => (1u32..5000, 5000u32..=10_000), 1 => (1u32..=10_000, 1u32..=10_000), 1 => (prop::sample::select(vec![0u32, 1, 10_000, 10_001, u32::MAX]), prop::sample::select(vec![0u32, 1, 10_000, 10_001]))] }
fn good() -> impl Strategy<Value = F> { prop_oneof![3 => (1u32..5000, 5000u32..=10_000), 1 => (1u32..=10_000, 1u32..=10_000)] }
fn asset() -> impl Strategy<Value = AssetId> { prop_oneof![6 => prop::sample::select(vec![0u32, 2, 3]), 1 => Just(HUB)] }
fn res() -> impl Strategy<Value = u128> { prop_oneof![6 => mag(1 << 20, 1 << 90), 1 => mag(0, u128::MAX)] }
fn left() -> impl Strategy<Value = A> { prop_oneof![6 => (0u32..=600_000).prop_map(A::Part), 4 => (-1i16..=1).prop_map(A::Off), 1 => (900_000u32..1_100_000).prop_map(A::Part), 1 => mag(0, u128::MAX).prop_map(A::Abs)] }
fn lp() -> impl Strategy<Value = Who> { prop_oneof![8 => (1u64..4).prop_map(Who::User), 1 => Just(Who::User(EXEMPT)), 1 => Just(Who::Root), 1 => Just(Who::Nobody)] }
fn admin() -> impl Strategy<Value = Who> { prop_oneof![12 => Just(Who::User(ADMIN)), 1 => Just(Who::User(1)), 1 => Just(Who::Root)] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		10 => (asset(), res(), left(), asset(), res(), left()).prop_map(|(a, ra, x, b, rb, y)| Op::Trade { a, ra, x, b, rb, y }),
		8 => (lp(), asset(), res(), left(), any::<bool>()).prop_map(|(who, a, r, x, add)| Op::Liq { who, a, r, x, add }),
		1 => (admin(), asset(), frac()).prop_map(|(who, a, f)| Op::SetTrade { who, a, f }),
		2 => (admin(), asset(), prop::option::weighted(0.8, frac()), any::<bool>()).prop_map(|(who, a, f, add)| Op::SetLiq { who, a, f, add }),
		2 => Just(Op::Block),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((good(), prop::option::weighted(0.8, good()), prop::option::weighted(0.8, good())).prop_map(|(trade, add, remove)| Cfg { trade, add, remove }), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, ops)| Case { cfg, ops })
}
#[derive(Clone, Debug, Default)]
struct M {
	trade: BTreeMap<AssetId, F>,
	liq: [BTreeMap<AssetId, Option<F>>; 2],
	/// in, out, limit
	vol: BTreeMap<AssetId, (u128, u128, u128)>,
	/// so far, limit; added and removed
	moved: [BTreeMap<AssetId, (u128, u128)>; 2],
}
fn ok(f: F) -> bool { (1..=10_000).contains(&f.0) && (1..=10_000).contains(&f.1) }
fn limit(r: u128, f: F) -> Option<u128> { Some(r.checked_mul(f.0 as u128)? / f.1 as u128) }
impl M {
	fn trade_limit(&self, a: AssetId) -> F { self.trade.get(&a).copied().unwrap_or(cfg().trade) }
	fn liq_limit(&self, i: usize, a: AssetId) -> Option<F> { self.liq[i].get(&a).copied().unwrap_or([cfg().add, cfg().remove][i]) }
	fn amount(&self, o: &Op) -> (u128, u128) {
		match o {
			Op::Trade { a, ra, x, b, rb, y } => {
				let n = |a: &AssetId, r: &u128| self.vol.get(a).copied().unwrap_or((0, 0, limit(*r, self.trade_limit(*a)).unwrap_or(0)));
				let (v, w) = (n(a, ra), n(b, rb));
				(x.of((v.2.saturating_add(v.1)).saturating_sub(v.0)), y.of((w.2.saturating_add(w.0)).saturating_sub(w.1)))
			}
			Op::Liq { a, r, x, add, .. } => {
				let i = if *add { 0 } else { 1 };
				let v = self.moved[i].get(a).copied().unwrap_or((0, self.liq_limit(i, *a).and_then(|f| limit(*r, f)).unwrap_or(*r)));
				(x.of(v.1.saturating_sub(v.0)), 0)
			}
			_ => (0, 0),
		}
	}
	fn step(&mut self, o: &Op, x: u128, y: u128) -> Option<Option<E<Test>>> {
		match *o {
			Op::Trade { a, ra, b, rb, .. } => {
				for (k, r) in [(a, ra), (b, rb)] { if k != HUB && !self.vol.contains_key(&k) { let l = limit(r, self.trade_limit(k))?; self.vol.insert(k, (0, 0, l)); } }
				for (k, i, o) in [(a, x, 0), (b, 0, y)] {
					let Some(v) = self.vol.get_mut(&k) else { continue };
					*v = (v.0.checked_add(i)?, v.1.checked_add(o)?, v.2);
					if v.0.abs_diff(v.1) > v.2 { return None }
				}
				Some(None)
			}
			Op::Liq { who, a, r, add, .. } => {
				match who { Who::Nobody => return None, Who::Root | Who::User(EXEMPT) => return Some(None), _ => {} }
				if a == HUB { return Some(None) }
				for i in 0..2 { if let (Some(f), false) = (self.liq_limit(i, a), self.moved[i].contains_key(&a)) { let l = limit(r, f)?; self.moved[i].insert(a, (0, l)); } }
				let i = if add { 0 } else { 1 };
				if self.liq_limit(i, a).is_some() {
					let v = self.moved[i].get_mut(&a)?;
					v.0 = v.0.checked_add(x)?;
					if v.0 > v.1 { return None }
				}
				Some(None)
			}
			Op::SetTrade { who, a, f } => { if who != Who::User(ADMIN) || a == HUB || !ok(f) { return None } self.trade.insert(a, f); Some(Some(E::TradeVolumeLimitChanged { asset_id: a, trade_volume_limit: f })) }
			Op::SetLiq { who, a, f, add } => {
				if who != Who::User(ADMIN) || a == HUB || f.map_or(false, |f| !ok(f)) { return None }
				self.liq[if add { 0 } else { 1 }].insert(a, f);
				Some(Some(if add { E::AddLiquidityLimitChanged { asset_id: a, liquidity_limit: f } } else { E::RemoveLiquidityLimitChanged { asset_id: a, liquidity_limit: f } }))
			}
			Op::Block => { self.vol.clear(); self.moved = Default::default(); Some(None) }
		}
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg);
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M::default();
	let mut block = 1u64;
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let (x, y) = model.amount(o);
			let mut next = model.clone();
			let want = next.step(o, x, y);
			System::reset_events();
			let got = atomic(what, || match *o {
				Op::Trade { a, ra, b, rb, .. } => with_storage_layer(|| Breaker::ensure_pool_state_change_limit(a, ra, x, b, rb, y).map(|_| ())),
				Op::Liq { who, a, r, add, .. } => with_storage_layer(|| if add { Breaker::ensure_add_liquidity_limit(who.origin(), a, r, x).map(|_| ()) } else { Breaker::ensure_remove_liquidity_limit(who.origin(), a, r, x).map(|_| ()) }),
				Op::SetTrade { who, a, f } => Breaker::set_trade_volume_limit(who.origin(), a, f),
				Op::SetLiq { who, a, f, add } => if add { Breaker::set_add_liquidity_limit(who.origin(), a, f) } else { Breaker::set_remove_liquidity_limit(who.origin(), a, f) },
				Op::Block => { Breaker::on_finalize(block); block += 1; System::set_block_number(block); Breaker::on_initialize(block); Ok(()) }
			})?;
			agree(what, &got, &want)?;
			match (o, &want) {
				(Op::Trade { .. }, None) => { m.label("trade stopped"); if !model.vol.is_empty() { m.nontrivial(); } }
				(Op::Liq { .. }, None) => { m.label("liquidity stopped"); if !model.moved[0].is_empty() { m.nontrivial(); } }
				(Op::Trade { .. }, _) => m.label("trade passed"),
				(Op::Liq { .. }, _) => m.label("liquidity passed"),
				_ => {}
			}
			let Some(out) = want else { continue };
			model = next;
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Breaker(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out.into_iter().collect::<Vec<_>>(), "{}: events", what());
			for a in 0..5u32 {
				ensure_eq!(Breaker::allowed_trade_volume_limit_per_asset(a).map(|v| (v.volume_in, v.volume_out, v.limit)), model.vol.get(&a).copied(), "{}: volume of {a}", what());
				ensure_eq!(Breaker::allowed_add_liquidity_limit_per_asset(a).map(|v| (v.liquidity, v.limit)), model.moved[0].get(&a).copied(), "{}: added to {a}", what());
				ensure_eq!(Breaker::allowed_remove_liquidity_limit_per_asset(a).map(|v| (v.liquidity, v.limit)), model.moved[1].get(&a).copied(), "{}: removed from {a}", what());
				ensure_eq!(Breaker::trade_volume_limit_per_asset(a), model.trade_limit(a), "{}: trade limit of {a}", what());
				ensure_eq!(Breaker::add_liquidity_limit_per_asset(a), model.liq_limit(0, a), "{}: add limit of {a}", what());
				ensure_eq!(Breaker::remove_liquidity_limit_per_asset(a), model.liq_limit(1, a), "{}: remove limit of {a}", what());
			}
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("checks of the breaker run inside the transaction of the trade they guard, as in the pool that uses them");
	c.check("histories", "histories of trades and liquidity changes over blocks (amounts around what is left until the limit), exemptions and changes of limits, against an exact model; non-trivial: something was stopped after earlier activity in the block", 60_000, 1_000_000, || case(30), run);
	std::process::exit(c.finish());
}
