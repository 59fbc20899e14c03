//! C59: assets, accounts and the places they have on other chains.
use super::*;
use hydradx_rt::xcm::{self as rx, AssetLocation};
use polkadot_xcm::v4::{prelude::Junction as J, Asset as X, AssetId as XId, AssetInstance, Fungibility, Location, NetworkId};
use frame_support::traits::ContainsPair;
use xcm_executor::traits::ConvertLocation;
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Jn { Para(u32), Own, Index(u128), Key(u8), Acc(u8, Option<u8>), Acc20(u8, Option<u8>), Pallet(u8), Global(u8), Only, Long(u64) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct L { parents: u8, path: Vec<Jn> }
fn net(n: u8) -> NetworkId { match n % 3 { 0 => NetworkId::Polkadot, 1 => NetworkId::Kusama, _ => NetworkId::ByGenesis([n; 32]) } }
fn place(l: &L, own: u32) -> Location {
	let js: Vec<J> = l.path.iter().map(|j| match j {
		Jn::Para(x) => J::Parachain(*x), Jn::Own => J::Parachain(own), Jn::Index(x) => J::GeneralIndex(*x), Jn::Key(x) => J::GeneralKey { length: *x % 33, data: [*x; 32] },
		Jn::Acc(x, n) => J::AccountId32 { network: n.map(net), id: [*x; 32] }, Jn::Acc20(x, n) => J::AccountKey20 { network: n.map(net), key: [*x; 20] },
		Jn::Pallet(x) => J::PalletInstance(*x), Jn::Global(x) => J::GlobalConsensus(net(*x)), Jn::Only => J::OnlyChild, Jn::Long(x) => J::AccountIndex64 { network: None, index: *x },
	}).collect();
	let interior = match js.as_slice() { [] => Location::here().interior, [a] => (*a).into(), [a, b] => [*a, *b].into(), [a, b, c] => [*a, *b, *c].into(), [a, b, c, d] => [*a, *b, *c, *d].into(), [a, b, c, d, e] => [*a, *b, *c, *d, *e].into(), [a, b, c, d, e, f] => [*a, *b, *c, *d, *e, *f].into(), [a, b, c, d, e, f, g] => [*a, *b, *c, *d, *e, *f, *g].into(), [a, b, c, d, e, f, g, h, ..] => [*a, *b, *c, *d, *e, *f, *g, *h].into() };
	Location { parents: l.parents, interior }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { own: u32, registered: Vec<L>, asked: Vec<(L, Option<u8>)>, bound: Option<u8>, amount: u128, moved: Option<(u8, L)> }
fn case() -> BoxedStrategy<Case> {
	let own = prop_oneof![3 => Just(2034u32), 1 => Just(1000u32), 1 => any::<u32>()];
	let jn = || prop_oneof![3 => Just(Jn::Own), 4 => Just(Jn::Index(0)), 2 => prop_oneof![Just(1000u32), Just(2034), 0u32..5, any::<u32>()].prop_map(Jn::Para), 2 => prop_oneof![0u128..4, any::<u128>()].prop_map(Jn::Index), 1 => any::<u8>().prop_map(Jn::Key), 1 => (0u8..3, proptest::option::of(0u8..4)).prop_map(|(a, b)| Jn::Acc(a, b)), 3 => (0u8..3, proptest::option::of(0u8..4)).prop_map(|(a, b)| Jn::Acc20(a, b)), 1 => any::<u8>().prop_map(Jn::Pallet), 1 => (0u8..5).prop_map(Jn::Global), 1 => Just(Jn::Only), 1 => any::<u64>().prop_map(Jn::Long)];
	let l = move || {
		let jn = jn;
		prop_oneof![
			2 => (0u8..4).prop_map(|parents| L { parents, path: vec![Jn::Own, Jn::Index(0)] }),
			2 => (0u8..3, 0u128..3).prop_map(|(parents, i)| L { parents, path: vec![Jn::Index(i)] }),
			2 => (0u8..4, 0u8..3).prop_map(|(parents, k)| L { parents, path: vec![Jn::Acc20(k, None)] }),
			2 => (0u8..4, proptest::collection::vec(jn(), 0..2)).prop_map(|(parents, mut t)| { let mut path = vec![Jn::Para(1000)]; path.append(&mut t); L { parents, path } }),
			5 => (0u8..4, proptest::collection::vec(jn(), 0..9)).prop_map(|(parents, path)| L { parents, path }),
			4 => (0u8..3, proptest::collection::vec(jn(), 1..4)).prop_map(|(parents, path)| L { parents, path }),
		]
	};
	let l2 = l;
	(own, proptest::collection::vec(l(), 0..5), proptest::collection::vec((l2(), proptest::option::weighted(0.5, 0u8..5)), 1..6), proptest::option::of(0u8..3), mag(0, u128::MAX), proptest::option::weighted(0.4, (0u8..5, l()))).prop_map(|(own, registered, asked, bound, amount, moved)| Case { own, registered, asked, bound, amount, moved }).boxed()
}
fn native(l: &Location, own: u32) -> bool { match l.unpack() { (1, [J::Parachain(p), J::GeneralIndex(0)]) => *p == own, (0, [J::GeneralIndex(0)]) => true, _ => false } }
/// the two parts of the own location the other way round: nothing is said about it
fn swapped(l: &Location, own: u32) -> bool { matches!(l.unpack(), (1, [J::GeneralIndex(0), J::Parachain(p)]) if *p == own) }
fn run(c: &Case, m: &mut Meter) -> Res {
	ParachainInfo::set(c.own);
	fresh(frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap(), || {
		System::set_block_number(1);
		let mut at: BTreeMap<u32, Location> = BTreeMap::new();
		let root = || RuntimeOrigin::from(RawOrigin::Root);
		for (i, l) in c.registered.iter().enumerate() {
			let p = place(l, c.own);
			let stored = AssetLocation::try_from(p.clone()).map_err(|_| format!("{p:?} has no stored form"))?;
			ensure_eq!(Option::<Location>::from(stored.clone()), Some(p.clone()), "stored form of {p:?} and back");
			let id = 10 + i as u32;
			let free = !at.values().any(|x| *x == p);
			let r = AssetRegistry::register(root(), Some(id), None, pallet_asset_registry::AssetType::Token, Some(1), None, None, Some(stored), None, true);
			ensure_eq!(r.is_ok(), free, "registering {id} at {p:?}: {r:?}");
			if r.is_ok() { at.insert(id, p); }
		}
		// one moves house
		if let Some((i, l)) = &c.moved {
			let (id, p) = (10 + *i as u32, place(l, c.own));
			if at.contains_key(&id) && !at.values().any(|x| *x == p) {
				AssetRegistry::update(root(), id, None, None, None, None, None, None, None, Some(AssetLocation::try_from(p.clone()).unwrap())).map_err(|e| format!("moving {id} to {p:?}: {e:?}"))?;
				at.insert(id, p);
				m.label("moved");
			}
		}
		let own = Location::new(1, [J::Parachain(c.own), J::GeneralIndex(0)]);
		ensure_eq!(<rx::RtConvert as Convert<u32, Option<Location>>>::convert(0), Some(own.clone()), "place of the native asset");
		ensure_eq!(rx::SelfLocation::get(), Location::new(1, J::Parachain(c.own)), "own place");
		let mut ps: Vec<Location> = c.asked.iter().map(|(l, i)| match i { Some(i) if !at.is_empty() => at.values().nth(*i as usize % at.len()).unwrap().clone(), _ => place(l, c.own) }).collect();
		ps.extend(at.values().cloned());
		ps.push(own);
		for (id, p) in &at { ensure_eq!(<rx::RtConvert as Convert<u32, Option<Location>>>::convert(*id), Some(p.clone()), "place of asset {id}"); }
		for id in [1u32, 9, 30] { ensure_eq!(<rx::RtConvert as Convert<u32, Option<Location>>>::convert(id), at.get(&id).cloned(), "place of asset {id}"); }
		for p in &ps {
			if swapped(p, c.own) { continue }
			let want = if native(p, c.own) { m.label("native"); Some(0) } else { at.iter().find(|(_, x)| *x == p).map(|x| *x.0) };
			if want.map_or(false, |x| x > 0) { m.label("registered"); m.nontrivial() }
			ensure_eq!(<rx::RtConvert as Convert<Location, Option<u32>>>::convert(p.clone()), want, "asset at {p:?}");
			for fun in [Fungibility::Fungible(c.amount), Fungibility::NonFungible(AssetInstance::Index(c.amount))] { ensure_eq!(<rx::RtConvert as Convert<X, Option<u32>>>::convert(X { id: XId(p.clone()), fun }), want, "asset of {p:?} {fun:?}"); }
			// accounts
			let who = match p.unpack() { (0, [J::AccountKey20 { key, .. }]) => { m.label("key"); let a = sp_core::H160::from(*key); Some(match &c.bound { Some(b) if key == &[*b; 20] => bound(*b), _ => { let mut x = [0u8; 32]; x[..4].copy_from_slice(b"ETH\0"); x[4..24].copy_from_slice(&a.0); AccountId::new(x) } }) } _ => None };
			let got = with_transaction_unchecked(|| { if let Some(b) = c.bound { EVMAccounts::bind_evm_address(RuntimeOrigin::from(RawOrigin::Signed(bound(b)))).unwrap(); } TransactionOutcome::Rollback(<rx::EvmAddressConversion<NoNet> as ConvertLocation<AccountId>>::convert_location(p)) });
			ensure_eq!(got, who, "account at {p:?}, bound {:?}", c.bound);
			// what other chains may send in kind, and the least fee there
			let hub = Location::new(1, J::Parachain(1000));
			ensure_eq!(rx::AssetHubLocation::get(), hub, "asset hub");
			for origin in [hub.clone(), p.clone(), Location::parent(), Location::new(1, J::Parachain(c.own)), Location::new(2, J::Parachain(1000))] {
				for fun in [Fungibility::Fungible(c.amount), Fungibility::NonFungible(AssetInstance::Index(c.amount))] {
					let a = X { id: XId(p.clone()), fun };
					let want = origin == hub && p.parents == 2 && matches!(fun, Fungibility::Fungible(_));
					if want { m.label("bridged") }
					ensure_eq!(<rx::IsForeignNativeAssetFrom<rx::AssetHubLocation> as ContainsPair<X, Location>>::contains(&a, &origin), want, "{a:?} sent from {origin:?} as its reserve");
				}
			}
			let fee = matches!(p.unpack(), (1, [J::Parachain(1000), ..])).then_some(50_000_000);
			ensure_eq!(<rx::ParachainMinFee as GetByKey<Location, Option<u128>>>::get(p), fee, "least fee at {p:?}");
		}
		for w in [0u8, 1, 255] { ensure_eq!(<rx::RtAccountLocation as Convert<AccountId, Location>>::convert(AccountId::new([w; 32])), Location { parents: 0, interior: J::AccountId32 { network: None, id: [w; 32] }.into() }, "place of an account"); }
		Ok(())
	})
}
pub struct NoNet;
impl Get<Option<NetworkId>> for NoNet { fn get() -> Option<NetworkId> { None } }
/// an account whose first twenty bytes are the key
fn bound(b: u8) -> AccountId { let mut x = [7u8; 32]; x[..20].copy_from_slice(&[b; 20]); AccountId::new(x) }
pub fn main(c: &mut Ctx) { c.check("places", "registries of assets with locations, some moved, against questions in both directions, accounts by key with and without a bound account, origins of bridged assets and least fees; non-trivial: a registered, not native, location was resolved", 20_000, 400_000, case, run) }
