use kit::*;
use hydra_dx_math::dynamic_fees::{recalculate_asset_fee, recalculate_protocol_fee, types as mt};
use orml_traits::GetByKey;
use pallet_dynamic_fees::{traits::{Volume, VolumeProvider}, types::{FeeEntry, FeeParams}, UpdateAndRetrieveFees};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Fees: pallet_dynamic_fees });
/// min, max (parts), decay, amplification (inner)
type P = (u32, u32, u128, u128);
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { asset: P, protocol: P }
type Table = BTreeMap<AssetId, (Option<(u128, u128)>, Option<u128>)>;
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); static VOL: RefCell<Table> = RefCell::new(Default::default()); }
fn cfg() -> Cfg { CFG.with(|c| *c.borrow()) }
fn params(p: P) -> FeeParams<Permill> { FeeParams { min_fee: Permill::from_parts(p.0), max_fee: Permill::from_parts(p.1), decay: FixedU128::from_inner(p.2), amplification: FixedU128::from_inner(p.3) } }
parameter_types! {
	pub AssetP: FeeParams<Permill> = params(cfg().asset);
	pub ProtocolP: FeeParams<Permill> = params(cfg().protocol);
}
pub struct V(u128, u128);
impl Volume<u128> for V { fn amount_in(&self) -> u128 { self.0 } fn amount_out(&self) -> u128 { self.1 } }
pub struct Vols;
impl VolumeProvider<AssetId, u128> for Vols {
	type Volume = V;
	fn asset_volume(a: AssetId) -> Option<V> { VOL.with(|v| v.borrow().get(&a)?.0.map(|x| V(x.0, x.1))) }
	fn asset_liquidity(a: AssetId) -> Option<u128> { VOL.with(|v| v.borrow().get(&a)?.1) }
}
system_config!(Test, u64, ());
impl pallet_dynamic_fees::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type BlockNumberProvider = System;
	type Fee = Permill;
	type AssetId = AssetId;
	type Oracle = Vols;
	type AssetFeeParameters = AssetP;
	type ProtocolFeeParameters = ProtocolP;
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Get(AssetId), Volume { a: AssetId, v: Option<(u128, u128)>, l: Option<u128> }, Blocks(u64) }
fn asset() -> impl Strategy<Value = AssetId> { 0u32..3 }
fn op() -> impl Strategy<Value = Op> {
	let v = || prop_oneof![3 => (mag(1 << 30, 1 << 70), mag(1 << 30, 1 << 70)), 1 => (mag(0, u128::MAX), mag(0, u128::MAX))];
	prop_oneof![
		8 => asset().prop_map(Op::Get),
		5 => (asset(), prop::option::weighted(0.9, v()), prop::option::weighted(0.9, prop_oneof![4 => mag(1 << 60, 1 << 74), 1 => mag(0, u128::MAX)])).prop_map(|(a, v, l)| Op::Volume { a, v, l }),
		6 => prop_oneof![6 => Just(1u64), 2 => 1u64..20, 1 => 1u64..100_000].prop_map(Op::Blocks),
	]
}
fn p() -> impl Strategy<Value = P> {
	let e = 1_000_000_000_000_000_000u128;
	(0u32..=1_000_000, 0u32..=1_000_000, prop_oneof![2 => mag(0, 1 << 60), 1 => (0u128..100).prop_map(move |x| x * e / 100_000)], prop_oneof![3 => (1u128..1000).prop_map(move |x| x * e / 100), 1 => mag(1, 1 << 70)]).prop_map(|(a, b, d, k)| (a.min(b) / 10, a.max(b), d, k))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, first: u64, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> { ((p(), p()).prop_map(|(asset, protocol)| Cfg { asset, protocol }), prop_oneof![4 => 1u64..10, 1 => Just(0u64), 1 => 1u64..10_000_000], proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, first, ops)| Case { cfg, first, ops }) }
fn mp(p: P) -> mt::FeeParams<Permill> { let q = params(p); mt::FeeParams { min_fee: q.min_fee, max_fee: q.max_fee, decay: q.decay, amplification: q.amplification } }
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg);
	VOL.with(|v| v.borrow_mut().clear());
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut vol: Table = Default::default();
	// asset -> (asset fee, protocol fee, block)
	let mut fees: BTreeMap<AssetId, (Permill, Permill, u64)> = Default::default();
	let mut now = c.first;
	fresh(st, || {
		System::set_block_number(now);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			match o {
				Op::Get(a) => {
					let (fa, fp, at) = fees.get(a).copied().unwrap_or((Permill::from_parts(c.cfg.asset.0), Permill::from_parts(c.cfg.protocol.0), 0));
					let mut want = (fa, fp);
					if let (true, Some((Some(v), Some(l)))) = (now != at, vol.get(a).copied()) {
						let e = || mt::OracleEntry { amount_in: v.0, amount_out: v.1, liquidity: l };
						want = (recalculate_asset_fee(e(), fa, (now - at) as u128, mp(c.cfg.asset)), recalculate_protocol_fee(e(), fp, (now - at) as u128, mp(c.cfg.protocol)));
						fees.insert(*a, (want.0, want.1, now));
						m.label("recalculated");
						if want != (fa, fp) && at != 0 { m.nontrivial(); }
					} else if now == at { m.label("same block"); }
					ensure_eq!(<UpdateAndRetrieveFees<Test> as GetByKey<AssetId, (Permill, Permill)>>::get(a), want, "{}: fees", what());
					ensure_that!(want.0.deconstruct() >= c.cfg.asset.0 && want.0.deconstruct() <= c.cfg.asset.1 && want.1.deconstruct() >= c.cfg.protocol.0 && want.1.deconstruct() <= c.cfg.protocol.1, "{}: fees out of bounds", what());
				}
				Op::Volume { a, v, l } => { vol.insert(*a, (*v, *l)); VOL.with(|x| *x.borrow_mut() = vol.clone()); }
				Op::Blocks(n) => { now += n; System::set_block_number(now); }
			}
			for a in 0..3 { ensure_eq!(Fees::current_fees(a), fees.get(&a).map(|f| FeeEntry { asset_fee: f.0, protocol_fee: f.1, timestamp: f.2 }), "{}: stored fees of {a}", what()); }
			ensure_eq!(pallet_dynamic_fees::AssetFee::<Test>::iter().count(), fees.len(), "{}: stored fees", what());
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("the formula of one recalculation is that of hydra-dx-math (decided by C15)");
	c.check("histories", "histories of volumes, missing volumes, blocks and fee requests for several assets against an exact model; non-trivial: a later recalculation changed a fee", 60_000, 1_000_000, || case(30), run);
	std::process::exit(c.finish());
}
