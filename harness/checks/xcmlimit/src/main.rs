use cumulus_pallet_xcmp_queue::XcmDeferFilter;
use kit::*;
use pallet_xcm_rate_limiter::AccumulatedAmounts;
use sp_runtime::traits::{BlockNumberProvider, Convert};
use std::cell::RefCell;
use std::collections::BTreeMap;
use xcm::{lts::prelude::*, v2, VersionedXcm};

construct_runtime!(pub enum Test { System: frame_system, Limiter: pallet_xcm_rate_limiter });
system_config!(Test, u64, ());
#[derive(Clone, Debug, Default)]
struct Cfg { defer: u32, max: u32, now: u32, limits: BTreeMap<u32, u128> }
thread_local! { static C: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { C.with(|c| c.borrow().clone()) }
parameter_types! { pub Defer: u32 = cfg().defer; pub Max: u32 = cfg().max; }
pub struct Now;
impl BlockNumberProvider for Now { type BlockNumber = u32; fn current_block_number() -> u32 { cfg().now } }
pub struct Ids;
impl Convert<MultiLocation, Option<u32>> for Ids { fn convert(l: MultiLocation) -> Option<u32> { (0..LOCS).find(|i| loc(*i) == l).and_then(id) } }
pub struct Limits;
impl orml_traits::GetByKey<u32, Option<u128>> for Limits { fn get(a: &u32) -> Option<u128> { cfg().limits.get(a).copied() } }
impl pallet_xcm_rate_limiter::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = u32;
	type DeferDuration = Defer;
	type MaxDeferDuration = Max;
	type RelayBlockNumberProvider = Now;
	type CurrencyIdConvert = Ids;
	type RateLimitFor = Limits;
}
const LOCS: u8 = 6;
fn loc(i: u8) -> MultiLocation {
	match i { 0 => MultiLocation::here(), 1 => MultiLocation::parent(), 2 => MultiLocation::new(1, X1(Parachain(2000))), 3 => MultiLocation::new(1, X2(Parachain(2000), GeneralIndex(7))), 4 => MultiLocation::new(1, X2(Parachain(2000), GeneralIndex(8))), _ => MultiLocation::new(2, X1(Parachain(2000))) }
}
/// Locations 3 and 4 are one local asset; 5 is unknown.
fn id(i: u8) -> Option<u32> { match i { 5 => None, 4 => Some(3), i => Some(i as u32) } }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fun { Amount(A), Nft(u8), Abstract(u128) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum First { Reserve, Teleport, Withdraw, Other, Empty, Old(bool), OldBad }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Pass(u32), Limit { a: u8, v: Option<u128> }, Msg { first: First, assets: Vec<(u8, Fun)>, more: bool } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { defer: u32, max: u32, limits: Vec<Option<u128>>, now: u32, ops: Vec<Op> }
fn case() -> BoxedStrategy<Case> {
	let limit = || prop_oneof![1 => Just(None), 1 => Just(Some(0u128)), 8 => mag(1, 1 << 60).prop_map(Some), 1 => mag(1, u128::MAX).prop_map(Some)];
	let fun = || prop_oneof![12 => amt().prop_map(Fun::Amount), 1 => any::<u8>().prop_map(Fun::Nft), 1 => mag(1, u128::MAX).prop_map(Fun::Abstract)];
	let first = || prop_oneof![6 => Just(First::Reserve), 5 => Just(First::Teleport), 1 => Just(First::Withdraw), 1 => Just(First::Other), 1 => Just(First::Empty), 2 => any::<bool>().prop_map(First::Old), 1 => Just(First::OldBad)];
	let op = prop_oneof![
		4 => prop_oneof![4 => 0u32..30, 1 => mag(0, u32::MAX as u128).prop_map(|x| x as u32)].prop_map(Op::Pass),
		1 => (0u8..5, limit()).prop_map(|(a, v)| Op::Limit { a, v }),
		10 => (first(), proptest::collection::vec((0..LOCS, fun()), 0..4), any::<bool>()).prop_map(|(first, assets, more)| Op::Msg { first, assets, more }),
	];
	let dur = || prop_oneof![6 => 1u32..200, 1 => Just(0u32), 1 => mag(1, u32::MAX as u128).prop_map(|x| x as u32)];
	(dur(), dur(), proptest::collection::vec(limit(), 5), prop_oneof![0u32..100, any::<u32>()], proptest::collection::vec(op, 1..25)).prop_map(|(defer, max, limits, now, ops)| Case { defer, max, limits, now, ops }).boxed()
}
fn asset(l: u8, f: &Fun, limit: u128) -> MultiAsset {
	match f {
		Fun::Amount(a) => MultiAsset { id: Concrete(loc(l)), fun: Fungible(a.of(limit.max(1)).max(1)) },
		Fun::Nft(i) => MultiAsset { id: Concrete(loc(l)), fun: NonFungible(AssetInstance::Index(*i as u128)) },
		Fun::Abstract(v) => MultiAsset { id: Abstract([l; 32]), fun: Fungible(*v) },
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	let limits = c.limits.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i as u32, v))).collect();
	C.with(|x| *x.borrow_mut() = Cfg { defer: c.defer, max: c.max, now: c.now, limits });
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let cut = |x: U1024| small(x).unwrap_or(u128::MAX);
	fresh(st, || {
		let mut acc: BTreeMap<u8, (u128, u32)> = BTreeMap::new();
		for (i, o) in c.ops.iter().enumerate() {
			match o {
				Op::Pass(n) => C.with(|x| { let mut x = x.borrow_mut(); x.now = x.now.saturating_add(*n) }),
				Op::Limit { a, v } => C.with(|x| { let mut x = x.borrow_mut(); match v { Some(v) => { x.limits.insert(*a as u32, *v); } None => { x.limits.remove(&(*a as u32)); } } }),
				Op::Msg { first, assets, more } => {
					let lim = |l: u8| id(l).and_then(|a| cfg().limits.get(&a).copied());
					let mut list: Vec<MultiAsset> = assets.iter().map(|(l, f)| asset(*l, f, lim(*l).unwrap_or(1000))).collect();
					list.sort();
					list.dedup();
					let mk = || MultiAssets::from_sorted_and_deduplicated(list.clone()).unwrap();
					let tail = |v: &mut Vec<Instruction<RuntimeCall>>| if *more { v.push(ClearOrigin); v.push(ReserveAssetDeposited(mk())); v.push(ReceiveTeleportedAsset(mk())); };
					let mut v = vec![];
					let msg: VersionedXcm<RuntimeCall> = match first {
						First::Reserve => { v.push(ReserveAssetDeposited(mk())); tail(&mut v); VersionedXcm::V3(Xcm(v)) }
						First::Teleport => { v.push(ReceiveTeleportedAsset(mk())); tail(&mut v); VersionedXcm::V3(Xcm(v)) }
						First::Withdraw => { v.push(WithdrawAsset(mk())); tail(&mut v); VersionedXcm::V3(Xcm(v)) }
						First::Other => { v.push(ClearOrigin); tail(&mut v); VersionedXcm::V3(Xcm(v)) }
						First::Empty => VersionedXcm::V3(Xcm(vec![])),
						First::Old(r) => VersionedXcm::V2(v2::Xcm(vec![if *r { v2::Instruction::ReserveAssetDeposited(mk()) } else { v2::Instruction::ReceiveTeleportedAsset(mk()) }])),
						First::OldBad => VersionedXcm::V2(v2::Xcm(vec![v2::Instruction::ReserveAssetDeposited(mk()), v2::Instruction::Unconvertible(Default::default())])),
					};
					let arrives = matches!(first, First::Reserve | First::Teleport | First::Old(_));
					let mut want: u128 = 0;
					let mut touched = 0;
					if arrives {
						for a in &list {
							let (Concrete(l), Fungible(v)) = (&a.id, &a.fun) else { continue };
							let l = (0..LOCS).find(|i| loc(*i) == *l).unwrap();
							let Some(limit) = lim(l) else { m.label("not limited"); continue };
							let d = c.defer.max(1) as u128;
							let (old, at) = acc.get(&l).copied().unwrap_or((0, 0));
							// decay in full: what remains after (limit * blocks / duration)
							let gone = cut(b(cut(b(limit) * b(cfg().now.saturating_sub(at) as u128))) / b(d));
							let sum = v.saturating_add(old.saturating_sub(gone));
							if old > gone { m.label("accumulates") }
							acc.insert(l, (sum, cfg().now));
							let dd = cut(b(cut(b(d) * b(sum.saturating_sub(limit)))) / b(limit.max(1))).min(u32::MAX as u128);
							want = want.max(dd);
							touched += 1;
						}
					}
					if touched > 1 { m.label("several limited assets") }
					let want = if matches!(first, First::OldBad) { m.label("unreadable"); Some(c.max) } else if want > 0 { m.label(if want > c.max as u128 { "deferred, capped" } else { "deferred" }); m.nontrivial(); Some((want as u32).min(c.max)) } else { m.label("passes"); None };
					let before = state();
					let got = Limiter::deferred_by(1000u32.into(), 0, &msg).1;
					ensure_eq!(got, want, "op {i} {o:?}: deferred by, at {:?}", cfg());
					if touched == 0 { ensure_eq!(state(), before, "op {i} {o:?}: storage though nothing is limited") }
				}
			}
			let stored: BTreeMap<MultiLocation, (u128, u32)> = AccumulatedAmounts::<Test>::iter().map(|(l, a)| (l, (a.amount, a.last_updated))).collect();
			ensure_eq!(stored, acc.iter().map(|(l, v)| (loc(*l), *v)).collect::<BTreeMap<_, _>>(), "op {i} {o:?}: accumulated");
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("the XCM types are a stand-in with the fields the pallet reads; relay block, local ids and limits are changed by the history");
	c.check("deferral", "histories of messages of both versions, time and changed limits against exact integers; non-trivial: a message was deferred", 40_000, 800_000, case, run);
	std::process::exit(c.finish());
}
