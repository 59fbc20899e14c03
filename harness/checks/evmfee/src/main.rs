use frame_support::traits::Hooks;
use hydra_dx_math::types::Ratio;
use hydradx_traits::NativePriceOracle;
use kit::*;
use pallet_evm::FeeCalculator;
use sp_core::U256;
use std::cell::RefCell;

construct_runtime!(pub enum Test { System: frame_system, Fee: pallet_dynamic_evm_fee });
system_config!(Test, u64, ());
#[derive(Clone, Debug, Default)]
struct Cfg { min: u128, max: u128, def: u128, mult: u128, price: Option<(u128, u128)>, weth: u32 }
thread_local! { static C: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { C.with(|c| c.borrow().clone()) }
parameter_types! {
	pub Min: u128 = cfg().min; pub Max: u128 = cfg().max; pub Def: u128 = cfg().def; pub Weth: u32 = cfg().weth;
	pub Mult: FixedU128 = FixedU128::from_inner(cfg().mult);
}
pub struct Price;
impl NativePriceOracle<u32, Ratio> for Price { fn price(a: u32) -> Option<Ratio> { if a == cfg().weth { cfg().price.map(|(n, d)| Ratio::new_unchecked(n, d)) } else { Some(Ratio::new(1, 3)) } } }
impl pallet_dynamic_evm_fee::Config for Test {
	type AssetId = u32;
	type MinBaseFeePerGas = Min;
	type MaxBaseFeePerGas = Max;
	type DefaultBaseFeePerGas = Def;
	type FeeMultiplier = Mult;
	type NativePriceOracle = Price;
	type WethAssetId = Weth;
	type WeightInfo = ();
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum P { None, Of(u128, u128), Near { ppm: u32, den: u128 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step { mult: u128, price: P, def: Option<u128> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { def: u128, down: u32, up: u32, weth: u32, steps: Vec<Step> }
const REF: u128 = 8_945_857_934_143_137_845;
const ONE: u128 = 1_000_000_000_000_000_000;
fn case() -> BoxedStrategy<Case> {
	let mult = || prop_oneof![6 => 0..=ONE * 10, 2 => Just(0u128), 2 => Just(ONE), 2 => mag(1, u128::MAX), 1 => Just(u128::MAX)];
	let price = || prop_oneof![1 => Just(P::None), 3 => (mag(0, u128::MAX), mag(0, u128::MAX)).prop_map(|(n, d)| P::Of(n, d)), 2 => (mag(1, 1 << 70), mag(1, 1 << 70)).prop_map(|(n, d)| P::Of(n, d)), 8 => (1u32..12_000_000, prop_oneof![Just(ONE), mag(1, 1 << 64)]).prop_map(|(ppm, den)| P::Near { ppm, den })];
	let def = || prop_oneof![4 => Just(15_000_000u128), 4 => mag(0, 1 << 100), 1 => mag(0, u128::MAX)];
	let step = (mult(), price(), prop_oneof![6 => Just(None), 1 => def().prop_map(Some)]).prop_map(|(mult, price, def)| Step { mult, price, def });
	(def(), prop_oneof![Just(100_000u32), 0u32..1_500_000], prop_oneof![Just(30_000_000u32), 500_000u32..100_000_000], 0u32..4, proptest::collection::vec(step, 1..12)).prop_map(|(def, down, up, weth, steps)| Case { def, down, up, weth, steps }).boxed()
}
fn run(c: &Case, m: &mut Meter) -> Res {
	let part = |x: u128, ppm: u32| small(b(x) * b(ppm as u128) / b(1_000_000)).unwrap_or(u128::MAX);
	let min = part(c.def, c.down).min(u128::MAX - 1);
	let max = part(c.def, c.up).max(min + 1);
	C.with(|x| *x.borrow_mut() = Cfg { min, max, def: c.def, mult: ONE, price: None, weth: c.weth });
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let big = b(u128::MAX);
	fresh(st, || {
		let mut stored: Option<u128> = None;
		for (i, s) in c.steps.iter().enumerate() {
			let price = match &s.price { P::None => None, P::Of(n, d) => Some((*n, *d)), P::Near { ppm, den } => Some((small(b(REF) * b(*ppm as u128) / b(1_000_000) * b(*den) / b(ONE)).unwrap_or(1), *den)) };
			C.with(|x| { let mut x = x.borrow_mut(); x.mult = s.mult; x.price = price; if let Some(d) = s.def { x.def = d } });
			let def = cfg().def;
			let before = stored.unwrap_or(def);
			ensure_eq!(Fee::min_gas_price().0, U256::from(before), "step {i}: the price before");
			System::set_block_number(i as u64 + 1);
			Fee::on_initialize(i as u64 + 1);
			// default * (1 + 3m), each step exact and saturating
			let cut = |x: U1024| if x > big { big } else { x };
			let base = cut(b(def) + cut(cut(b(s.mult) * b(def) / b(ONE)) * b(3)));
			let diff = price.filter(|(_, d)| *d != 0).and_then(|(n, d)| small(b(n) * b(ONE) / b(d))).and_then(|p| small(b(p) * b(ONE) / b(REF)));
			let known = diff.is_some();
			match diff {
				Some(d) => {
					let fee = cut(base * b(d) / b(ONE));
					let fee = small(fee).unwrap();
					stored = Some(if fee < min { m.label("at minimum"); min } else if fee > max { m.label("at maximum"); max } else { m.label("between"); m.nontrivial(); fee });
				}
				// the storage value is written back unchanged
				None => { m.label("no usable price"); stored = Some(before) }
			}
			let now = Fee::min_gas_price().0;
			ensure_eq!(now, U256::from(stored.unwrap()), "step {i} {s:?}: base fee, default {def}, bounds {min}..{max}, price {price:?}");
			ensure_eq!(Fee::base_evm_fee(), now, "step {i}: stored fee");
			if known { must!(now >= U256::from(min) && now <= U256::from(max), "step {i}: {now} out of {min}..{max}") }
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("the fee multiplier, oracle price and bounds are stand-ins the history changes; bounds differ as the pallet's integrity test demands");
	c.check("base fee", "blocks with generated multipliers, prices (also none, zero, unrepresentable) and defaults against exact integers; non-trivial: the fee lies strictly between its bounds", 60_000, 2_000_000, case, run);
	std::process::exit(c.finish());
}
