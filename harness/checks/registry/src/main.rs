use kit::*;
use frame_support::{storage::with_storage_layer, traits::Contains, BoundedVec};
use frame_system::RawOrigin;
use hydradx_traits::{registry::{Create, Inspect, Mutate}, AssetKind};
use orml_traits::GetByKey;
use pallet_asset_registry::{AssetType, Event as E, OracleWhitelist, XcmRateLimitsInRegistry};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Registry: pallet_asset_registry });
thread_local! { static START: RefCell<u32> = RefCell::new(100); }
fn start() -> u32 { START.with(|s| *s.borrow()) }
#[derive(Debug, PartialEq)]
pub struct Max;
impl Get<u32> for Max { fn get() -> u32 { 6 } }
#[derive(Debug, PartialEq)]
pub struct Min;
impl Get<u32> for Min { fn get() -> u32 { 2 } }
parameter_types! { pub Start: u32 = start(); }
pub struct Updaters;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Updaters {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(2) => Ok(2), _ => Err(o) } }
}
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
impl pallet_asset_registry::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Tokens;
	type RegistryOrigin = frame_system::EnsureRoot<u64>;
	type UpdateOrigin = Updaters;
	type AssetId = u32;
	type AssetNativeLocation = u8;
	type StringLimit = Max;
	type MinStringLimit = Min;
	type SequentialIdStartAt = Start;
	type RegExternalWeightMultiplier = ConstU64<1>;
	type WeightInfo = ();
}
type Str = BoundedVec<u8, Max>;
const TYPES: [AssetType; 5] = [AssetType::Token, AssetType::XYK, AssetType::StableSwap, AssetType::Bond, AssetType::External];
const KINDS: [AssetKind; 5] = [AssetKind::Token, AssetKind::XYK, AssetKind::StableSwap, AssetKind::Bond, AssetKind::External];
/// 0 root, 1 ordinary user, 2 updater, 3 nobody, 4 another pallet
type Who = u8;
fn origin(w: Who) -> RuntimeOrigin { match w { 0 => RawOrigin::Root.into(), 3 => RawOrigin::None.into(), w => RawOrigin::Signed(w as u64).into() } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Details { name: Option<Vec<u8>>, kind: u8, ed: Option<u128>, symbol: Option<Vec<u8>>, decimals: Option<u8>, loc: Option<u8>, limit: Option<u128>, sufficient: bool }
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Id { Nth(u8), Abs(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Register { who: Who, id: Option<u32>, d: Details },
	GetOr { d: Details },
	Update { who: Who, id: Id, d: Details, kind: bool, sufficient: Option<bool> },
	External { who: Who, loc: u8 },
	Ban { who: Who, id: Id, on: bool },
	SetLocation { id: Id, loc: u8 },
}
fn names() -> impl Strategy<Value = Vec<u8>> { prop_oneof![8 => prop::sample::select(vec!["AB", "ABC", "ABCDEF", "HDX", "lp", "ab", "DOT", "x y"]).prop_map(|s| s.as_bytes().to_vec()), 2 => proptest::collection::vec(any::<u8>(), 0..=6)] }
fn symbols() -> impl Strategy<Value = Vec<u8>> { prop_oneof![6 => prop::sample::select(vec!["AB", "ABC", "ABCDEF", "hdx"]).prop_map(|s| s.as_bytes().to_vec()), 1 => proptest::collection::vec(any::<u8>(), 0..=6), 2 => (prop::sample::select(vec![9u8, 10, 11, 12, 13, 28, 31, 32, 0x85, 0xa0, 8, 14, 0x84, 0xa1]), 0usize..3).prop_map(|(c, i)| { let mut v = b"abc".to_vec(); v[i] = c; v })] }
fn details(p: f64) -> impl Strategy<Value = Details> {
	(prop::option::weighted(p, names()), 0u8..5, prop::option::weighted(p, mag(0, u128::MAX)), prop::option::weighted(p, symbols()), prop::option::weighted(p, 0u8..20), prop::option::weighted(p, 0u8..10), prop::option::weighted(p, mag(0, u128::MAX)), any::<bool>())
		.prop_map(|(name, kind, ed, symbol, decimals, loc, limit, sufficient)| Details { name, kind, ed, symbol, decimals, loc, limit, sufficient })
}
fn id() -> impl Strategy<Value = Id> { prop_oneof![8 => (0u8..8).prop_map(Id::Nth), 1 => (0u32..5).prop_map(Id::Abs), 1 => any::<u32>().prop_map(Id::Abs)] }
fn op() -> impl Strategy<Value = Op> {
	let reg = || prop_oneof![8 => Just(0u8), 3 => Just(4u8), 1 => 1u8..4];
	let upd = || prop_oneof![5 => Just(0u8), 5 => Just(2u8), 1 => Just(1u8), 1 => Just(3u8)];
	prop_oneof![
		6 => (reg(), prop::option::weighted(0.3, prop_oneof![6 => 0u32..5, 1 => 98u32..104, 1 => any::<u32>()]), details(0.6)).prop_map(|(who, id, d)| Op::Register { who, id, d }),
		2 => details(0.5).prop_map(|d| Op::GetOr { d }),
		8 => (upd(), id(), details(0.2), prop::bool::weighted(0.2), prop::option::weighted(0.2, any::<bool>())).prop_map(|(who, id, d, kind, sufficient)| Op::Update { who, id, d, kind, sufficient }),
		2 => (prop_oneof![6 => 1u8..3, 1 => Just(0u8), 1 => Just(3u8)], 0u8..10).prop_map(|(who, loc)| Op::External { who, loc }),
		2 => (upd(), id(), prop::bool::weighted(0.6)).prop_map(|(who, id, on)| Op::Ban { who, id, on }),
		1 => (id(), 0u8..10).prop_map(|(id, loc)| Op::SetLocation { id, loc }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { start: u32, pre: Vec<(Option<u32>, Details)>, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	(prop_oneof![8 => Just(100u32), 1 => Just(u32::MAX - 3)], proptest::collection::vec((prop::option::of(1u32..5), details(0.5)), 0..3), proptest::collection::vec(op(), 1..n)).prop_map(|(start, pre, ops)| Case { start, pre, ops })
}
#[derive(Clone, Debug, PartialEq)]
struct Asset { name: Option<Vec<u8>>, kind: u8, ed: u128, symbol: Option<Vec<u8>>, decimals: Option<u8>, limit: Option<u128>, sufficient: bool, loc: Option<u8> }
#[derive(Clone, Debug, Default)]
struct M { assets: BTreeMap<u32, Asset>, banned: BTreeSet<u32>, next: u32 }
fn symbol_ok(s: &Option<Vec<u8>>) -> bool { s.as_ref().map_or(true, |s| s.len() >= 2 && !s.iter().any(|c| matches!(*c, 9..=13 | 32 | 0x85 | 0xa0))) }
fn st(s: &Option<Vec<u8>>) -> Option<Str> { s.clone().map(|s| s.try_into().unwrap()) }
impl M {
	fn by_name(&self, n: &[u8]) -> Option<u32> { self.assets.iter().find(|(_, a)| a.name.as_deref() == Some(n)).map(|x| *x.0) }
	fn by_loc(&self, l: u8) -> Option<u32> { self.assets.iter().find(|(_, a)| a.loc == Some(l)).map(|x| *x.0) }
	fn id(&self, i: Id) -> u32 { match i { Id::Abs(i) => i, Id::Nth(n) => *self.assets.keys().nth(n as usize % self.assets.len()).unwrap() } }
	fn registered(&self, i: u32) -> Vec<E<Test>> {
		let a = &self.assets[&i];
		let mut v = vec![];
		if let Some(l) = a.loc { v.push(E::LocationSet { asset_id: i, location: l }); }
		v.push(E::Registered { asset_id: i, asset_name: st(&a.name), asset_type: TYPES[a.kind as usize], existential_deposit: a.ed, xcm_rate_limit: a.limit, symbol: st(&a.symbol), decimals: a.decimals, is_sufficient: a.sufficient });
		v
	}
	fn register(&mut self, id: Option<u32>, d: &Details) -> Option<u32> {
		if !symbol_ok(&d.symbol) || d.name.as_ref().map_or(false, |n| n.len() < 2 || self.by_name(n).is_some()) || d.loc.map_or(false, |l| self.by_loc(l).is_some()) { return None }
		let i = match id {
			Some(i) => { if i >= start() || self.assets.contains_key(&i) { return None } i }
			None => { let i = start().checked_add(self.next)?; self.next += 1; i }
		};
		self.assets.insert(i, Asset { name: d.name.clone(), kind: d.kind, ed: d.ed.unwrap_or(1), symbol: d.symbol.clone(), decimals: d.decimals, limit: d.limit, sufficient: d.sufficient, loc: d.loc });
		Some(i)
	}
	fn step(&mut self, o: &Op) -> Option<Vec<E<Test>>> {
		match o {
			Op::Register { who, id, d } => { if *who != 0 && *who != 4 { return None } let i = self.register(*id, d)?; Some(self.registered(i)) }
			Op::GetOr { d } => {
				let n = d.name.clone().unwrap_or_else(|| b"none".to_vec());
				if self.by_name(&n).is_some() { return Some(vec![]) }
				let i = self.register(None, &Details { name: Some(n), ..d.clone() })?;
				Some(self.registered(i))
			}
			Op::Update { who, id, d, kind, sufficient } => {
				if *who != 0 && *who != 2 { return None }
				let i = self.id(*id);
				if !symbol_ok(&d.symbol) || d.name.as_ref().map_or(false, |n| n.len() < 2 || self.by_name(n).is_some()) { return None }
				let others = d.loc.and_then(|l| self.by_loc(l)).map_or(false, |o| o != i);
				let a = self.assets.get_mut(&i)?;
				if let Some(n) = &d.name { a.name = Some(n.clone()) }
				if *kind { a.kind = d.kind }
				if let Some(e) = d.ed { a.ed = e }
				if d.limit.is_some() { a.limit = d.limit }
				if let Some(s) = &d.symbol { a.symbol = Some(s.clone()) }
				if let Some(s) = sufficient { if a.sufficient && !s { return None } a.sufficient = *s }
				if d.decimals.is_some() { if a.decimals.is_some() && *who != 0 { return None } a.decimals = d.decimals }
				let mut v = vec![];
				if let Some(l) = d.loc { if *who != 0 || others { return None } a.loc = Some(l); v.push(E::LocationSet { asset_id: i, location: l }) }
				v.push(E::Updated { asset_id: i, asset_name: st(&a.name), asset_type: TYPES[a.kind as usize], existential_deposit: a.ed, xcm_rate_limit: a.limit, symbol: st(&a.symbol), decimals: a.decimals, is_sufficient: a.sufficient });
				Some(v)
			}
			Op::External { who, loc } => {
				if *who == 0 || *who == 3 { return None }
				let i = self.register(None, &Details { name: None, kind: 4, ed: None, symbol: None, decimals: None, loc: Some(*loc), limit: None, sufficient: false })?;
				Some(self.registered(i))
			}
			Op::Ban { who, id, on } => {
				let i = self.id(*id);
				if *who != 2 { return None }
				if *on { if !self.assets.contains_key(&i) || !self.banned.insert(i) { return None } Some(vec![E::AssetBanned { asset_id: i }]) } else { if !self.banned.remove(&i) { return None } Some(vec![E::AssetUnbanned { asset_id: i }]) }
			}
			Op::SetLocation { id, loc } => {
				let i = self.id(*id);
				if self.by_loc(*loc).is_some() { return None }
				self.assets.get_mut(&i)?.loc = Some(*loc);
				Some(vec![E::LocationSet { asset_id: i, location: *loc }])
			}
		}
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	START.with(|s| *s.borrow_mut() = c.start);
	let mut stor = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { next: 1, ..Default::default() };
	model.assets.insert(0, Asset { name: Some(b"HDX".to_vec()), kind: 0, ed: 1, symbol: Some(b"HDX".to_vec()), decimals: Some(12), limit: None, sufficient: true, loc: None });
	let mut pre = vec![];
	for (i, d) in &c.pre {
		let d = Details { loc: None, kind: 0, ed: Some(d.ed.unwrap_or(7)), ..d.clone() };
		if model.register(*i, &d).is_some() { pre.push((*i, st(&d.name), d.ed.unwrap(), st(&d.symbol), d.decimals, d.limit, d.sufficient)); }
	}
	pallet_asset_registry::GenesisConfig::<Test> { registered_assets: pre, ..Default::default() }.assimilate_storage(&mut stor).unwrap();
	fresh(stor, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			// used for assets without a location only
			if let Op::SetLocation { id, .. } = o { if model.assets.get(&model.id(*id)).map_or(false, |a| a.loc.is_some()) { continue } }
			let mut next = model.clone();
			let want = next.step(o);
			System::reset_events();
			let got: Result<Option<u32>, DispatchError> = atomic(what, || match o {
				Op::Register { who: 4, id, d } => with_storage_layer(|| <Registry as Create<u128>>::register_asset(*id, st(&d.name), KINDS[d.kind as usize], d.ed, st(&d.symbol), d.decimals, d.loc, d.limit, d.sufficient).map(Some)),
				Op::Register { who, id, d } => Registry::register(origin(*who), *id, st(&d.name), TYPES[d.kind as usize], d.ed, st(&d.symbol), d.decimals, d.loc, d.limit, d.sufficient).map(|_| None),
				Op::GetOr { d } => with_storage_layer(|| <Registry as Create<u128>>::get_or_register_asset(d.name.clone().unwrap_or_else(|| b"none".to_vec()).try_into().unwrap(), KINDS[d.kind as usize], d.ed, st(&d.symbol), d.decimals, d.loc, d.limit, d.sufficient).map(Some)),
				Op::Update { who, id, d, kind, sufficient } => Registry::update(origin(*who), model.id(*id), st(&d.name), kind.then(|| TYPES[d.kind as usize]), d.ed, d.limit, *sufficient, st(&d.symbol), d.decimals, d.loc).map(|_| None),
				Op::External { who, loc } => Registry::register_external(origin(*who), *loc).map(|_| None),
				Op::Ban { who, id, on } => if *on { Registry::ban_asset(origin(*who), model.id(*id)) } else { Registry::unban_asset(origin(*who), model.id(*id)) }.map(|_| None),
				Op::SetLocation { id, loc } => with_storage_layer(|| <Registry as Mutate<u128>>::set_location(model.id(*id), *loc)).map(|_| None),
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let old = std::mem::replace(&mut model, next);
			match o {
				Op::Update { d, .. } => { m.nontrivial(); m.label(if d.name.is_some() || d.loc.is_some() { "renamed or moved" } else { "updated" }) }
				Op::Ban { .. } => m.label("ban"),
				_ => m.label(if model.assets.len() > old.assets.len() { "registered" } else { "found" }),
			}
			if let Ok(Some(id)) = got {
				let want = match o { Op::GetOr { d } => model.by_name(d.name.as_deref().unwrap_or(b"none")), _ => model.assets.keys().copied().find(|k| !old.assets.contains_key(k)) };
				ensure_eq!(Some(id), want, "{}: returned id", what());
			}
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Registry(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out, "{}: events", what());
			for (id, a) in &model.assets {
				let g = Registry::assets(id).ok_or_else(|| format!("{}: asset {id} missing", what()))?;
				let got = Asset { name: g.name.map(|n| n.into_inner()), kind: TYPES.iter().position(|t| *t == g.asset_type).unwrap() as u8, ed: g.existential_deposit, symbol: g.symbol.map(|n| n.into_inner()), decimals: g.decimals, limit: g.xcm_rate_limit, sufficient: g.is_sufficient, loc: Registry::locations(id) };
				ensure_eq!(got, *a, "{}: asset {id}", what());
				ensure_eq!((Registry::asset_name(*id), Registry::asset_symbol(*id), Registry::decimals(*id), Registry::existential_deposit(*id), Registry::is_sufficient(*id), Registry::exists(*id)), (a.name.clone(), a.symbol.clone(), a.decimals, Some(a.ed), a.sufficient, true), "{}: asset {id} as seen by other pallets", what());
				ensure_eq!((<Registry as Inspect>::asset_type(*id), <Registry as GetByKey<u32, u128>>::get(id), <XcmRateLimitsInRegistry<Test> as GetByKey<u32, Option<u128>>>::get(id), Registry::asset_to_location(*id)), (Some(KINDS[a.kind as usize]), a.ed, a.limit, a.loc), "{}: asset {id} as seen by other pallets", what());
				for other in [0u32, 1, *id] { ensure_eq!(<OracleWhitelist<Test> as Contains<_>>::contains(&(*b"omnipool", *id, other)), a.sufficient && model.assets.get(&other).map_or(false, |o| o.sufficient), "{}: oracle allowed for {id}/{other}", what()); }
				if let Some(n) = &a.name { ensure_eq!(Registry::asset_ids(Str::try_from(n.clone()).unwrap()), Some(*id), "{}: asset by name", what()); }
				if let Some(l) = a.loc { ensure_eq!(Registry::location_to_asset(l), Some(*id), "{}: asset by location", what()); }
			}
			ensure_eq!(pallet_asset_registry::Assets::<Test>::iter().count(), model.assets.len(), "{}: number of assets", what());
			ensure_eq!(pallet_asset_registry::AssetIds::<Test>::iter().count(), model.assets.values().filter(|a| a.name.is_some()).count(), "{}: number of names", what());
			ensure_eq!(pallet_asset_registry::LocationAssets::<Test>::iter().count(), model.assets.values().filter(|a| a.loc.is_some()).count(), "{}: number of locations", what());
			ensure_eq!(pallet_asset_registry::AssetLocations::<Test>::iter().count(), model.assets.values().filter(|a| a.loc.is_some()).count(), "{}: number of located assets", what());
			ensure_eq!(pallet_asset_registry::BannedAssets::<Test>::iter().map(|x| x.0).collect::<BTreeSet<_>>(), model.banned, "{}: banned", what());
			ensure_that!(model.banned.iter().all(|b| Registry::is_banned(*b)), "{}: banned assets", what());
			ensure_eq!(Registry::next_asset_id(), start().checked_add(model.next), "{}: next id", what());
			ensure_eq!((<Registry as GetByKey<u32, u128>>::get(&55), Registry::is_sufficient(55), Registry::exists(55)), (u128::MAX, false, false), "{}: unknown asset", what());
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("locations by small numbers; other pallets call the registry within a transaction and set locations only of assets without one");
	c.check("histories", "histories of registering (by the authority, other pallets and anyone), updating, relocating and banning assets with colliding names, symbols and locations against an exact model and all lookups; non-trivial: an update was accepted", 40_000, 700_000, || case(24), run);
	std::process::exit(c.finish());
}
