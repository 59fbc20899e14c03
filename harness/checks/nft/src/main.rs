use frame_support::storage::with_storage_layer;
use frame_support::traits::nonfungibles::{Destroy, Inspect, InspectEnumerable, Mutate, Transfer};
use frame_support::traits::{AsEnsureOriginWithArg, ReservableCurrency};
use frame_support::BoundedVec;
use frame_system::RawOrigin;
use hydradx_traits::{nft::CreateTypedCollection, nft::ReserveCollectionId};
use kit::*;
use pallet_nft::{CollectionType, Event as E, NftPermission, NftPermissions};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Uniques: pallet_uniques, Nft: pallet_nft, Balances: pallet_balances });
system_config!(Test, u64, pallet_balances::AccountData<u128>);
#[derive(Clone, Debug, Default)]
struct Cfg { real: bool, perms: [u8; 2], cdep: u128, idep: u128, upto: u128 }
thread_local! { static C: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { C.with(|c| c.borrow().clone()) }
parameter_types! { pub CDep: u128 = cfg().cdep; pub IDep: u128 = cfg().idep; pub UpTo: u128 = cfg().upto; }
impl pallet_balances::Config for Test {
	type MaxLocks = ();
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<1>;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_uniques::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CollectionId = u128;
	type ItemId = u128;
	type Currency = Balances;
	type ForceOrigin = frame_system::EnsureRoot<u64>;
	type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<u64>>;
	type Locker = ();
	type CollectionDeposit = CDep;
	type ItemDeposit = IDep;
	type MetadataDepositBase = ConstU128<1>;
	type AttributeDepositBase = ConstU128<1>;
	type DepositPerByte = ConstU128<1>;
	type StringLimit = ConstU32<8>;
	type KeyLimit = ConstU32<8>;
	type ValueLimit = ConstU32<8>;
	type WeightInfo = ();
}
/// Bits: create, mint, transfer, burn, destroy, deposit. The pallet's own table: everything for Marketplace, only transfers for LiquidityMining.
fn bit(t: &CollectionType, i: u8) -> bool { let c = cfg(); let k = (*t == CollectionType::LiquidityMining) as usize; (if c.real { [0b111111u8, 0b000100][k] } else { c.perms[k] }) >> i & 1 == 1 }
pub struct Perm;
impl NftPermission<CollectionType> for Perm {
	fn can_create(t: &CollectionType) -> bool { if cfg().real { NftPermissions::can_create(t) } else { bit(t, 0) } }
	fn can_mint(t: &CollectionType) -> bool { if cfg().real { NftPermissions::can_mint(t) } else { bit(t, 1) } }
	fn can_transfer(t: &CollectionType) -> bool { if cfg().real { NftPermissions::can_transfer(t) } else { bit(t, 2) } }
	fn can_burn(t: &CollectionType) -> bool { if cfg().real { NftPermissions::can_burn(t) } else { bit(t, 3) } }
	fn can_destroy(t: &CollectionType) -> bool { if cfg().real { NftPermissions::can_destroy(t) } else { bit(t, 4) } }
	fn has_deposit(t: &CollectionType) -> bool { if cfg().real { NftPermissions::has_deposit(t) } else { bit(t, 5) } }
}
impl pallet_nft::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type NftCollectionId = u128; type NftItemId = u128; type CollectionType = CollectionType; type Permissions = Perm; type ReserveCollectionIdUpTo = UpTo; }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { w: u64, c: u8, lm: bool, meta: u8, by_trait: bool }, Mint { w: u64, c: u8, i: u8, meta: u8, by_trait: bool, own: bool }, Transfer { w: u64, c: u8, i: u8, to: u64, by_trait: bool, own: bool },
	Burn { w: u64, c: u8, i: u8, by_trait: u8, own: bool }, Destroy { w: u64, c: u8, by_trait: u8, own: bool }, RawCreate { w: u64, c: u8 }, RawMint { c: u8, i: u8, w: u64 }, Freeze { c: u8, i: Option<u8> }, Spend { w: u64, ppm: u32 }, Earn { w: u64, v: u128 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { real: bool, perms: [u8; 2], cdep: u128, idep: u128, upto: u8, funds: Vec<u128>, ops: Vec<Op> }
fn case() -> BoxedStrategy<Case> {
	let w = || 1u64..4;
	let c = || prop_oneof![8 => Just(1u8), 3 => Just(2), 1 => 0u8..4];
	let i = || prop_oneof![5 => Just(0u8), 3 => Just(1), 2 => 0u8..4];
	let own = || prop::bool::weighted(0.85);
	let op = prop_oneof![
		6 => (w(), c(), any::<bool>(), 0u8..4, any::<bool>()).prop_map(|(w, c, lm, meta, by_trait)| Op::Create { w, c, lm, meta, by_trait }),
		9 => (w(), c(), i(), 0u8..4, any::<bool>(), own()).prop_map(|(w, c, i, meta, by_trait, own)| Op::Mint { w, c, i, meta, by_trait, own }),
		7 => (w(), c(), i(), w(), any::<bool>(), own()).prop_map(|(w, c, i, to, by_trait, own)| Op::Transfer { w, c, i, to, by_trait, own }),
		5 => (w(), c(), i(), 0u8..4, own()).prop_map(|(w, c, i, by_trait, own)| Op::Burn { w, c, i, by_trait, own }),
		2 => (w(), c(), 0u8..4, own()).prop_map(|(w, c, by_trait, own)| Op::Destroy { w, c, by_trait, own }),
		1 => (w(), c()).prop_map(|(w, c)| Op::RawCreate { w, c }),
		1 => (c(), i(), w()).prop_map(|(c, i, w)| Op::RawMint { c, i, w }),
		1 => (c(), prop::option::of(i())).prop_map(|(c, i)| Op::Freeze { c, i }),
		1 => (w(), 0u32..1_000_000).prop_map(|(w, ppm)| Op::Spend { w, ppm }),
		1 => (w(), mag(1, 1 << 40)).prop_map(|(w, v)| Op::Earn { w, v }),
	];
	let bits = || prop_oneof![4 => Just(63u8), 2 => Just(31u8), 3 => 0u8..64];
	let dep = || prop_oneof![1 => Just(0u128), 4 => 1u128..1000, 1 => mag(1, 1 << 50)];
	(prop::bool::weighted(0.4), [bits(), bits()], dep(), dep(), 0u8..3, proptest::collection::vec(mag(1, 1 << 40), 3), proptest::collection::vec(op, 3..45)).prop_map(|(real, perms, cdep, idep, upto, funds, ops)| Case { real, perms, cdep, idep, upto, funds, ops }).boxed()
}
const IDS: [u128; 4] = [0, 1000, 1001, u128::MAX];
const ITEMS: [u128; 4] = [0, 1, 5, u128::MAX];
fn meta(k: u8) -> BoundedVec<u8, ConstU32<8>> { vec![k; [0usize, 1, 5, 8][k as usize % 4]].try_into().unwrap() }
#[derive(Clone, Debug)]
struct Item { owner: u64, meta: Option<u8>, dep: u128, frozen: bool }
#[derive(Clone, Debug)]
struct Col { owner: u64, kind: Option<(CollectionType, u8)>, dep: u128, free: bool, frozen: bool, items: BTreeMap<u128, Item> }
fn run(c: &Case, m: &mut Meter) -> Res {
	C.with(|x| *x.borrow_mut() = Cfg { real: c.real, perms: c.perms, cdep: c.cdep, idep: c.idep, upto: [0, 999, 1000][c.upto as usize] });
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: (1..4).map(|w| (w, c.funds[w as usize - 1].saturating_add(1))).chain([(9, 1)]).collect() }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		let mut cols: BTreeMap<u128, Col> = BTreeMap::new();
		let mut total: BTreeMap<u64, u128> = (1..4).map(|w| (w, c.funds[w as usize - 1].saturating_add(1))).collect();
		for (n, o) in c.ops.iter().enumerate() {
			let what = || format!("op {n} {o:?} with {:?} on {cols:?}", cfg());
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let mut ev: Option<E<Test>> = None;
			let mut next = cols.clone();
			let can = |w: &u64, d: u128| Balances::can_reserve(w, d);
			let (got, ok): (Result<(), DispatchError>, bool) = match o {
				Op::Spend { w, ppm } => { let v = (total[w] - cols.values().filter(|c| c.owner == *w).map(|c| c.dep + c.items.values().map(|i| i.dep).sum::<u128>()).sum::<u128>() - 1) / 1_000_000 * *ppm as u128; let r = Balances::transfer_keep_alive(sg(*w), 9, v); if r.is_ok() { *total.get_mut(w).unwrap() -= v } System::reset_events(); (Ok(()), true) }
				Op::Earn { w, v } => { let _ = <Balances as frame_support::traits::Currency<u64>>::deposit_creating(w, *v); *total.get_mut(w).unwrap() += v; System::reset_events(); (Ok(()), true) }
				Op::Freeze { c, i } => {
					let id = IDS[*c as usize];
					if let Some(col) = next.get_mut(&id) {
						let f = col.owner;
						match i { None => { Uniques::freeze_collection(sg(f), id).map_err(|e| format!("{e:?}"))?; col.frozen = true; } Some(i) => if let Some(it) = col.items.get_mut(&ITEMS[*i as usize]) { Uniques::freeze(sg(f), id, ITEMS[*i as usize]).map_err(|e| format!("{e:?}"))?; it.frozen = true; } }
					}
					(Ok(()), true)
				}
				Op::RawCreate { w, c } => { let id = IDS[*c as usize]; let ok = !cols.contains_key(&id) && can(w, cfg().cdep); if ok { next.insert(id, Col { owner: *w, kind: None, dep: cfg().cdep, free: false, frozen: false, items: BTreeMap::new() }); } (Uniques::create(sg(*w), id, *w), ok) }
				Op::RawMint { c, i, w } => {
					let (id, it) = (IDS[*c as usize], ITEMS[*i as usize]);
					let mut ok = false;
					if let Some(col) = next.get_mut(&id) { let dep = if col.free { 0 } else { cfg().idep }; if !col.items.contains_key(&it) && can(&col.owner, dep) { ok = true; col.items.insert(it, Item { owner: *w, meta: None, dep, frozen: false }); } }
					(with_storage_layer(|| <Uniques as Mutate<u64>>::mint_into(&id, &it, w)), ok)
				}
				Op::Create { w, c, lm, meta: k, by_trait } => {
					let (id, t) = (IDS[*c as usize], if *lm { CollectionType::LiquidityMining } else { CollectionType::Marketplace });
					let dep = if bit(&t, 5) { cfg().cdep } else { 0 };
					let ok = (*by_trait || (id > cfg().upto && bit(&t, 0))) && !cols.contains_key(&id) && can(w, dep);
					let md = if *by_trait && *k == 0 { None } else { Some(meta(*k)) };
					if ok { next.insert(id, Col { owner: *w, kind: Some((t, *k)), dep, free: !bit(&t, 5), frozen: false, items: BTreeMap::new() }); ev = Some(E::CollectionCreated { owner: *w, collection_id: id, collection_type: t, metadata: meta(*k) }); }
					(atomic(what, || if *by_trait { with_storage_layer(|| <Nft as CreateTypedCollection<_, _, _, _>>::create_typed_collection(*w, id, t, md)) } else { Nft::create_collection(sg(*w), id, t, meta(*k)) })?, ok)
				}
				Op::Mint { w, c, i, meta: k, by_trait, own } => {
					let (id, it) = (IDS[*c as usize], ITEMS[*i as usize]);
					let w = if *own && !by_trait { cols.get(&id).map_or(*w, |c| c.owner) } else { *w };
					let k = if *by_trait { 0 } else { *k };
					let mut ok = false;
					if let Some(col) = next.get_mut(&id) {
						let dep = if col.free { 0 } else { cfg().idep };
						ok = col.kind.as_ref().map_or(false, |(t, _)| *by_trait || (bit(t, 1) && col.owner == w)) && !col.items.contains_key(&it) && can(&col.owner, dep);
						if ok { col.items.insert(it, Item { owner: w, meta: Some(k), dep, frozen: false }); ev = Some(E::ItemMinted { owner: w, collection_id: id, item_id: it, metadata: meta(k) }); }
					}
					(atomic(what, || if *by_trait { with_storage_layer(|| <Nft as Mutate<u64>>::mint_into(&id, &it, &w)) } else { Nft::mint(sg(w), id, it, meta(k)) })?, ok)
				}
				Op::Transfer { w, c, i, to, by_trait, own } => {
					let (id, it) = (IDS[*c as usize], ITEMS[*i as usize]);
					let owner = cols.get(&id).and_then(|c| c.items.get(&it)).map(|i| i.owner);
					let w = if *own || *by_trait { owner.unwrap_or(*w) } else { *w };
					let allowed = if *by_trait { owner.is_some() } else { cols.get(&id).map_or(false, |c| c.kind.as_ref().map_or(false, |(t, _)| bit(t, 2))) };
					let same = w == *to;
					let thawed = cols.get(&id).map_or(false, |c| !c.frozen && c.items.get(&it).map_or(false, |i| !i.frozen));
					let ok = allowed && (same || (owner == Some(w) && thawed));
					if ok && !same { next.get_mut(&id).unwrap().items.get_mut(&it).unwrap().owner = *to; ev = Some(E::ItemTransferred { from: w, to: *to, collection_id: id, item_id: it }); m.label("moved"); }
					(atomic(what, || if *by_trait { with_storage_layer(|| <Nft as Transfer<u64>>::transfer(&id, &it, to)) } else { Nft::transfer(sg(w), id, it, *to) })?, ok)
				}
				Op::Burn { w, c, i, by_trait, own } => {
					let (id, it) = (IDS[*c as usize], ITEMS[*i as usize]);
					let owner = cols.get(&id).and_then(|c| c.items.get(&it)).map(|i| i.owner);
					let w = if *own { owner.unwrap_or(*w) } else { *w };
					// 0, 1: call, 2: trait with an owner to check, 3: trait without
					let ok = match by_trait { 0 | 1 => cols.get(&id).map_or(false, |c| c.kind.as_ref().map_or(false, |(t, _)| bit(t, 3))) && owner == Some(w), 2 => owner == Some(w), _ => owner.is_some() };
					if ok { next.get_mut(&id).unwrap().items.remove(&it); ev = Some(E::ItemBurned { owner: owner.unwrap(), collection_id: id, item_id: it }); m.label("burned"); }
					(atomic(what, || match by_trait { 0 | 1 => Nft::burn(sg(w), id, it), 2 => with_storage_layer(|| <Nft as Mutate<u64>>::burn(&id, &it, Some(&w))), _ => with_storage_layer(|| <Nft as Mutate<u64>>::burn(&id, &it, None)) })?, ok)
				}
				Op::Destroy { w, c, by_trait, own } => {
					let id = IDS[*c as usize];
					let owner = cols.get(&id).map(|c| c.owner);
					let w = if *own { owner.unwrap_or(*w) } else { *w };
					let empty = cols.get(&id).map_or(false, |c| c.items.is_empty());
					let ok = empty && match by_trait { 0 | 1 => cols.get(&id).map_or(false, |c| c.kind.as_ref().map_or(false, |(t, _)| bit(t, 4))) && owner == Some(w), 2 => owner == Some(w), _ => true };
					if ok { next.remove(&id); ev = Some(E::CollectionDestroyed { owner: owner.unwrap(), collection_id: id }); m.label("destroyed"); m.nontrivial(); }
					let wit = Nft::get_destroy_witness(&id).unwrap_or(pallet_uniques::DestroyWitness { items: 0, item_metadatas: 0, attributes: 0 });
					(atomic(what, || match by_trait { 0 | 1 => Nft::destroy_collection(sg(w), id), 2 => with_storage_layer(|| <Nft as Destroy<u64>>::destroy(id, wit, Some(w)).map(|_| ())), _ => with_storage_layer(|| <Nft as Destroy<u64>>::destroy(id, wit, None).map(|_| ())) })?, ok)
				}
			};
			agree(what, &got, &ok.then_some(()))?;
			if ok { m.label("accepted") } else { m.label("refused") }
			let w = what();
			cols = next;
			let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Nft(e) => Some(e), _ => None }).collect();
			ensure_eq!(e, ev.into_iter().collect::<Vec<_>>(), "{w}: events");
			// every view of who owns what
			let mut listed: Vec<u128> = <Nft as InspectEnumerable<u64>>::collections().collect();
			listed.sort();
			ensure_eq!(listed, cols.iter().filter(|c| c.1.kind.is_some()).map(|c| *c.0).collect::<Vec<_>>(), "{w}: collections");
			for id in IDS {
				let col = cols.get(&id);
				ensure_eq!(Nft::collection_owner(&id), col.map(|c| c.owner), "{w}: owner of {id}");
				ensure_eq!(pallet_nft::Collections::<Test>::get(id).map(|c| (c.collection_type, c.metadata)), col.and_then(|c| c.kind.as_ref().map(|(t, k)| (*t, meta(*k)))), "{w}: information of {id}");
				ensure_eq!(<Nft as ReserveCollectionId<u128>>::is_id_reserved(id), id <= cfg().upto, "{w}: {id} reserved");
				ensure_eq!(Nft::get_destroy_witness(&id).map(|x| x.items), col.map(|c| c.items.len() as u32), "{w}: items counted in {id}");
				let mut its: Vec<u128> = <Nft as InspectEnumerable<u64>>::items(&id).collect();
				its.sort();
				ensure_eq!(its, col.map_or(vec![], |c| c.items.iter().filter(|i| i.1.meta.is_some()).map(|i| *i.0).collect::<Vec<_>>()), "{w}: items of {id}");
				for it in ITEMS {
					let item = col.and_then(|c| c.items.get(&it));
					ensure_eq!(Nft::owner(&id, &it), item.map(|i| i.owner), "{w}: owner of item {it} of {id}");
					ensure_eq!(pallet_nft::Items::<Test>::get(id, it).map(|i| i.metadata), item.and_then(|i| i.meta).map(meta), "{w}: metadata of item {it} of {id}");
					ensure_eq!(<Nft as Inspect<u64>>::can_transfer(&id, &it), col.map_or(false, |c| c.kind.as_ref().map_or(false, |(t, _)| bit(t, 2))), "{w}: can transfer {it} of {id}");
				}
				for who in 1..4u64 {
					let mut o: Vec<u128> = <Nft as InspectEnumerable<u64>>::owned_in_collection(&id, &who).collect();
					o.sort();
					ensure_eq!(o, col.map_or(vec![], |c| c.items.iter().filter(|i| i.1.owner == who).map(|i| *i.0).collect::<Vec<_>>()), "{w}: items of {who} in {id}");
				}
			}
			for who in 1..4u64 {
				let mut o: Vec<(u128, u128)> = <Nft as InspectEnumerable<u64>>::owned(&who).collect();
				o.sort();
				ensure_eq!(o, cols.iter().flat_map(|(id, c)| c.items.iter().filter(|i| i.1.owner == who).map(|i| (*id, *i.0)).collect::<Vec<_>>()).collect::<Vec<_>>(), "{w}: everything {who} owns");
				let held: u128 = cols.values().filter(|c| c.owner == who).map(|c| c.dep + c.items.values().map(|i| i.dep).sum::<u128>()).sum();
				ensure_eq!((Balances::reserved_balance(who), Balances::total_balance(&who)), (held, total[&who]), "{w}: deposits held from {who} and total");
			}
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("pallet-uniques and pallet-balances are stand-ins; whether a deposit can be reserved is asked of the latter");
	c.check("collections", "histories of every call and trait function over several collections, items, owners, permissions and deposits against a model; non-trivial: a collection was destroyed", 30_000, 600_000, case, run);
	std::process::exit(c.finish());
}
