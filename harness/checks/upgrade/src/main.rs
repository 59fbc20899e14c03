use codec::Encode;
use frame_support::traits::schedule::{v3, DispatchTime, Period};
use frame_support::traits::{AsEnsureOriginWithArg, Bounded, Currency, LockIdentifier, LockableCurrency, OnRuntimeUpgrade, QueryPreimage, ReservableCurrency, StorageVersion, StorePreimage, WithdrawReasons};
use kit::*;
use pallet_asset_registry::AssetType;
use pallet_democracy::{Conviction, Delegations, ReferendumInfo, ReferendumStatus, Tally, VoteThreshold, Voting};
use pallet_nft::CollectionType;
use pbt::*;
use sp_core::hashing::{blake2_128, twox_128, twox_64};
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, Hash};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

macro_rules! eq { ($w:literal, $a:expr, $b:expr) => { ensure_eq!($a, $b, $w) } }
construct_runtime!(pub enum Test {
	System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Registry: pallet_asset_registry, Pause: pallet_transaction_pause,
	Duster: pallet_duster, Rewards: pallet_collator_rewards, History: pallet_genesis_history, Democracy: pallet_democracy, Uniques: pallet_uniques, Nft: pallet_nft
});
system_config!(Test, u64, pallet_balances::AccountData<u128>);
tokens_config!(Test, OneEd, Nothing, ());
thread_local! { static MAX: RefCell<(u32, u32)> = RefCell::new((4, 4)); }
#[derive(Debug, PartialEq)]
pub struct Str;
impl Get<u32> for Str { fn get() -> u32 { 6 } }
pub struct Candidates;
impl Get<u32> for Candidates { fn get() -> u32 { MAX.with(|m| m.borrow().0) } }
pub struct Props;
impl Get<u32> for Props { fn get() -> u32 { MAX.with(|m| m.borrow().1) } }
parameter_types! { pub const Zero: u128 = 0; pub const Cur: AssetId = 3; pub Nobody: Vec<u64> = vec![]; pub Start: u32 = 1000; }
impl pallet_balances::Config for Test {
	type MaxLocks = ConstU32<10>;
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<1>;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_asset_registry::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Tokens;
	type RegistryOrigin = frame_system::EnsureRoot<u64>;
	type UpdateOrigin = frame_system::EnsureSigned<u64>;
	type AssetId = u32;
	type AssetNativeLocation = u16;
	type StringLimit = Str;
	type MinStringLimit = ConstU32<1>;
	type SequentialIdStartAt = Start;
	type RegExternalWeightMultiplier = ConstU64<1>;
	type WeightInfo = ();
}
impl pallet_transaction_pause::Config for Test { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = frame_system::EnsureRoot<u64>; type WeightInfo = (); }
pub struct Mins;
impl orml_traits::GetByKey<AssetId, u128> for Mins { fn get(_: &AssetId) -> u128 { 0 } }
impl pallet_duster::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type Amount = i128;
	type CurrencyId = AssetId;
	type MultiCurrency = Tokens;
	type MinCurrencyDeposits = Mins;
	type Reward = Zero;
	type NativeCurrencyId = Cur;
	type BlacklistUpdateOrigin = frame_system::EnsureRoot<u64>;
	type WeightInfo = ();
}
impl pallet_collator_rewards::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type CurrencyId = AssetId;
	type Currency = Tokens;
	type RewardPerCollator = Zero;
	type RewardCurrencyId = Cur;
	type ExcludedCollators = Nobody;
	type SessionManager = ();
	type MaxCandidates = Candidates;
}
impl pallet_genesis_history::Config for Test {}
impl pallet_uniques::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CollectionId = u128;
	type ItemId = u128;
	type Currency = Balances;
	type ForceOrigin = frame_system::EnsureRoot<u64>;
	type CreateOrigin = AsEnsureOriginWithArg<frame_system::EnsureSigned<u64>>;
	type Locker = ();
	type CollectionDeposit = Zero;
	type ItemDeposit = Zero;
	type MetadataDepositBase = ConstU128<1>;
	type AttributeDepositBase = ConstU128<1>;
	type DepositPerByte = ConstU128<1>;
	type StringLimit = ConstU32<8>;
	type KeyLimit = ConstU32<8>;
	type ValueLimit = ConstU32<8>;
	type WeightInfo = ();
}
impl pallet_nft::Config for Test { type RuntimeEvent = RuntimeEvent; type WeightInfo = (); type NftCollectionId = u128; type NftItemId = u128; type CollectionType = CollectionType; type Permissions = pallet_nft::NftPermissions; type ReserveCollectionIdUpTo = ConstU128<100>; }
pub struct Sched;
impl v3::Named<u64, RuntimeCall, OriginCaller> for Sched {
	type Address = ();
	type Hasher = BlakeTwo256;
	fn schedule_named(_: v3::TaskName, _: DispatchTime<u64>, _: Option<Period<u64>>, _: u8, _: OriginCaller, _: Bounded<RuntimeCall, BlakeTwo256>) -> Result<(), DispatchError> { Ok(()) }
	fn cancel_named(_: v3::TaskName) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn reschedule_named(_: v3::TaskName, _: DispatchTime<u64>) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn next_dispatch_time(_: v3::TaskName) -> Result<u64, DispatchError> { Err(DispatchError::Unavailable) }
}
pub struct Pre;
impl QueryPreimage for Pre {
	type H = BlakeTwo256;
	fn len(_: &H256) -> Option<u32> { None }
	fn fetch(_: &H256, _: Option<u32>) -> Result<Vec<u8>, DispatchError> { Err(DispatchError::Unavailable) }
	fn is_requested(_: &H256) -> bool { false }
	fn request(_: &H256) {}
	fn unrequest(_: &H256) {}
}
impl StorePreimage for Pre { const MAX_LENGTH: usize = 1024; fn note(b: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Ok(BlakeTwo256::hash(&b)) } }
pub struct Any64;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Any64 {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { frame_system::ensure_signed(o.clone()).map_err(|_| o) }
}
impl pallet_democracy::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type EnactmentPeriod = ConstU64<1>;
	type LaunchPeriod = ConstU64<1>;
	type VotingPeriod = ConstU64<1>;
	type VoteLockingPeriod = ConstU64<1>;
	type FastTrackVotingPeriod = ConstU64<1>;
	type MinimumDeposit = Zero;
	type MaxDeposits = ConstU32<5>;
	type MaxBlacklisted = ConstU32<5>;
	type SubmitOrigin = Any64;
	type ExternalOrigin = Any64;
	type ExternalMajorityOrigin = Any64;
	type ExternalDefaultOrigin = Any64;
	type FastTrackOrigin = Any64;
	type InstantOrigin = Any64;
	type CancellationOrigin = Any64;
	type BlacklistOrigin = Any64;
	type CancelProposalOrigin = Any64;
	type VetoOrigin = Any64;
	type CooloffPeriod = ConstU64<1>;
	type Slash = ();
	type InstantAllowed = frame_support::traits::ConstBool<true>;
	type Scheduler = Sched;
	type MaxVotes = ConstU32<5>;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
	type MaxProposals = Props;
	type Preimages = Pre;
	type DemocracyHooks = ();
}
// ---- raw storage, by the documented layout: hash of the pallet's name, hash of the item's name, hashed key
type Raw = BTreeMap<Vec<u8>, Vec<u8>>;
fn prefix(p: &str, i: &str) -> Vec<u8> { [twox_128(p.as_bytes()), twox_128(i.as_bytes())].concat() }
fn twox(k: &impl Encode) -> Vec<u8> { let e = k.encode(); [&twox_64(&e)[..], &e].concat() }
fn blake(k: &impl Encode) -> Vec<u8> { let e = k.encode(); [&blake2_128(&e)[..], &e].concat() }
fn at(p: &str, i: &str, key: Vec<u8>) -> Vec<u8> { [prefix(p, i), key].concat() }
fn put(k: Vec<u8>, v: impl Encode) { sp_io::storage::set(&k, &v.encode()) }
fn version(p: &str) -> Vec<u8> { at(p, ":__STORAGE_VERSION__:", vec![]) }
/// What the storage must be afterwards: everything that was there except `gone`, and `now`.
fn same(before: &Raw, gone: impl Fn(&[u8]) -> bool, now: Raw) -> Res {
	let mut want: Raw = before.iter().filter(|(k, _)| !gone(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
	want.extend(now);
	let got = state();
	for (k, v) in &want {
		match got.get(k) {
			None => return Err(format!("lost from storage: key {k:02x?} = {v:02x?}")),
			Some(w) if w != v => return Err(format!("storage at {k:02x?}: {w:02x?}, must be {v:02x?}")),
			_ => {}
		}
	}
	match got.keys().find(|k| !want.contains_key(*k)) { Some(k) => Err(format!("must not be in storage: key {k:02x?}")), None => Ok(()) }
}
fn again(what: &str, f: impl FnOnce()) -> Res { let s = state(); f(); if state() == s { Ok(()) } else { Err(format!("{what}: running it a second time changed the storage")) } }
/// things of other pallets and of the same pallet that the upgrade has no business with
fn noise(p: &str, items: &[&str], seed: u64) {
	for (j, i) in items.iter().enumerate() { put(at(p, i, twox(&(seed as u32 % 7))), (seed, j as u32)) }
	put(at("Other", "Assets", blake(&1u32)), seed);
	Balances::make_free_balance_be(&77, 1_000 + seed as u128 % 1_000);
}
fn text() -> BoxedStrategy<Vec<u8>> { prop::collection::vec(prop_oneof![b'a'..=b'e', any::<u8>()], 0..=6).boxed() }
// ---- asset registry 1 -> 2
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OldAsset { id: u32, name: Vec<u8>, kind: u8, pair: (u32, u32), ed: u128, limit: Option<u128>, meta: Option<(Vec<u8>, u8)>, loc: Option<u16> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Assets { v: u16, assets: Vec<OldAsset>, seed: u64 }
fn assets() -> BoxedStrategy<Assets> {
	let a = (prop_oneof![0u32..12, any::<u32>()], text(), 0u8..6, any::<(u32, u32)>(), amt().prop_map(|a| abs(&a)), proptest::option::of(amt().prop_map(|a| abs(&a))), proptest::option::weighted(0.7, (text(), any::<u8>())), proptest::option::weighted(0.6, any::<u16>()))
		.prop_map(|(id, name, kind, pair, ed, limit, meta, loc)| OldAsset { id, name, kind, pair, ed, limit, meta, loc });
	(prop_oneof![8 => Just(1u16), 1 => Just(0), 1 => Just(2), 1 => Just(3)], prop::collection::vec(a, 0..9), any::<u64>()).prop_map(|(v, assets, seed)| Assets { v, assets, seed }).boxed()
}
fn abs(a: &A) -> u128 { a.of(1 << 100) }
fn registry(c: &Assets, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		let p = "Registry";
		noise(p, &["AssetIds", "BannedAssets"], c.seed);
		put(at(p, "NextAssetId", vec![]), c.seed as u32);
		let mut list: BTreeMap<u32, &OldAsset> = BTreeMap::new();
		let mut locs: BTreeSet<u16> = BTreeSet::new();
		for a in &c.assets { if !a.loc.map_or(false, |l| locs.contains(&l)) { if let Some(o) = list.insert(a.id, a) { o.loc.map(|l| locs.remove(&l)); } a.loc.map(|l| locs.insert(l)); } }
		let kind = |a: &OldAsset| { let mut e = vec![a.kind]; if a.kind == 1 { e.extend(a.pair.encode()) } e };
		for (id, a) in &list {
			sp_io::storage::set(&at(p, "Assets", twox(id)), &[a.name.encode(), kind(a), a.ed.encode(), a.limit.encode()].concat());
			if let Some((s, d)) = &a.meta { put(at(p, "AssetMetadataMap", twox(id)), (s, d)) }
			if let Some(l) = a.loc { put(at(p, "AssetLocations", twox(id)), l); put(at(p, "LocationAssets", blake(&l)), id) }
		}
		StorageVersion::new(c.v).put::<Registry>();
		let before = state();
		pallet_asset_registry::migration::v2::migrate::<Test>();
		if c.v != 1 { m.label("wrong version"); return same(&before, |_| false, Raw::new()) }
		let old = [prefix(p, "Assets"), prefix(p, "AssetMetadataMap"), prefix(p, "AssetLocations")];
		let mut now = Raw::new();
		now.insert(version(p), 2u16.encode());
		for (id, a) in &list {
			// the new kinds, by their place: token, XYK, stableswap, bond, external
			let new = [AssetType::Token, AssetType::XYK, AssetType::XYK, AssetType::StableSwap, AssetType::Bond, AssetType::External][a.kind as usize];
			let d = Registry::assets(*id).ok_or(format!("asset {id} is gone"))?;
			let want = (Some(a.name.clone()), new, a.ed, a.meta.as_ref().map(|x| x.0.clone()), a.meta.as_ref().map(|x| x.1), a.limit, true);
			let got = (d.name.map(|x| x.to_vec()), d.asset_type, d.existential_deposit, d.symbol.map(|x| x.to_vec()), d.decimals, d.xcm_rate_limit, d.is_sufficient);
			eq!("asset", got, want);
			let k = at(p, "Assets", blake(id));
			now.insert(k.clone(), sp_io::storage::get(&k).ok_or(format!("asset {id} is not under its key"))?.to_vec());
			if let Some(l) = a.loc {
				now.insert(at(p, "AssetLocations", blake(id)), l.encode());
				eq!("location of an asset", Registry::asset_to_location(*id), Some(l));
				eq!("asset of a location", Registry::location_to_asset(l), Some(*id));
			} else { eq!("location of an asset without one", Registry::asset_to_location(*id), None) }
		}
		same(&before, |k| old.iter().any(|p| k.starts_with(p)), now)?;
		again("asset registry", || { pallet_asset_registry::migration::v2::migrate::<Test>(); })?;
		if list.values().any(|a| a.meta.is_some() && a.loc.is_some()) && list.len() > 1 { m.nontrivial() }
		if list.values().any(|a| a.kind == 1) { m.label("pool share") }
		Ok(())
	})
}
// ---- paused calls, collators of a session, duster's lists, previous chain
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Small { paused: Vec<(u8, u8)>, max: u32, sessions: Vec<(u32, Vec<u64>)>, black: Vec<u64>, was: Vec<u64>, seed: u64 }
fn small_case() -> BoxedStrategy<Small> {
	let len = || prop_oneof![4 => 1u8..12, 3 => 38u8..43, 1 => 100u8..200];
	(prop::collection::vec((len(), len()), 0..6), 0u32..5, prop::collection::vec((0u32..9, prop::collection::vec(1u64..9, 0..7)), 0..6), prop::collection::vec(1u64..9, 0..5), prop::collection::vec(1u64..9, 0..4), any::<u64>())
		.prop_map(|(paused, max, sessions, black, was, seed)| Small { paused, max, sessions, black, was, seed }).boxed()
}
fn small_run(c: &Small, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		MAX.with(|x| x.borrow_mut().0 = c.max);
		noise("Pause", &["Else"], c.seed);
		noise("Rewards", &["Else"], c.seed);
		// paused calls
		let names: BTreeSet<(Vec<u8>, Vec<u8>)> = c.paused.iter().map(|(a, b)| (vec![b'p'; *a as usize], vec![b'f'; *b as usize])).collect();
		let key = |n: &(Vec<u8>, Vec<u8>)| at("Pause", "PausedTransactions", twox(n));
		for n in &names { put(key(n), ()) }
		let before = state();
		pallet_transaction_pause::migration::v1::Migration::<Test>::on_runtime_upgrade();
		let fits = |n: &&(Vec<u8>, Vec<u8>)| n.0.len() <= 40 && n.1.len() <= 40;
		let now: Raw = names.iter().filter(fits).map(|n| (key(n), vec![])).chain([(version("Pause"), 1u16.encode())]).collect();
		same(&before, |k| k.starts_with(&prefix("Pause", "PausedTransactions")), now)?;
		let got: BTreeSet<(Vec<u8>, Vec<u8>)> = pallet_transaction_pause::PausedTransactions::<Test>::iter_keys().map(|(a, b)| (a.to_vec(), b.to_vec())).collect();
		eq!("paused calls", got, names.iter().filter(fits).cloned().collect());
		again("paused calls", || { pallet_transaction_pause::migration::v1::Migration::<Test>::on_runtime_upgrade(); })?;
		// collators
		let sessions: BTreeMap<u32, Vec<u64>> = c.sessions.iter().cloned().collect();
		for (s, w) in &sessions { put(at("Rewards", "Collators", twox(s)), w) }
		let before = state();
		pallet_collator_rewards::migration::v1::migrate::<Test>();
		let fit = |w: &Vec<u64>| w.len() <= c.max as usize;
		let now: Raw = sessions.iter().filter(|x| fit(x.1)).map(|(s, w)| (at("Rewards", "Collators", twox(s)), w.encode())).chain([(version("Rewards"), 1u16.encode())]).collect();
		same(&before, |k| k.starts_with(&prefix("Rewards", "Collators")), now)?;
		for (s, w) in &sessions { eq!("collators of a session", pallet_collator_rewards::Collators::<Test>::get(s).to_vec(), if fit(w) { w.clone() } else { vec![] }) }
		again("collators", || { pallet_collator_rewards::migration::v1::migrate::<Test>(); })?;
		// duster
		for w in &c.was { put(at("Duster", "AccountBlacklist", blake(w)), ()) }
		let before = state();
		pallet_duster::migration::v1::migrate::<Test, Duster>(c.black.clone(), 90, 91);
		let mut now: Raw = [(at("Duster", "RewardAccount", vec![]), 90u64.encode()), (at("Duster", "DustAccount", vec![]), 91u64.encode()), (version("Duster"), 1u16.encode())].into();
		for w in &c.black { ensure_that!(pallet_duster::AccountBlacklist::<Test>::get(w).is_some(), "account {w} is not on the list"); }
		let listed: BTreeSet<u64> = pallet_duster::AccountBlacklist::<Test>::iter_keys().collect();
		eq!("accounts that are not dusted", listed, c.was.iter().chain(&c.black).copied().collect());
		for k in state().keys().filter(|k| k.starts_with(&prefix("Duster", "AccountBlacklist"))) { now.insert(k.clone(), vec![]); }
		same(&before, |_| false, now)?;
		eq!("reward account", Duster::reward_account(), Some(90));
		eq!("dust account", Duster::dust_dest_account(), Some(91));
		// previous chain
		let before = state();
		pallet_genesis_history::migration::v1::migrate::<Test>();
		let chain = pallet_genesis_history::PreviousChain::<Test>::get();
		let now: Raw = [(at("History", "PreviousChain", vec![]), (chain.genesis_hash, chain.last_block_hash).encode()), (version("History"), 1u16.encode())].into();
		same(&before, |_| false, now)?;
		// the chain as it was before: its first and its last block
		let hex = |h: H256| h.as_bytes().iter().map(|b| format!("{b:02x}")).collect::<String>();
		eq!("first block of the previous chain", hex(chain.genesis_hash), "d2a620c27ec5cbc5621ff9a522689895074f7cca0d08e7134a7804e1a3ba86fc".to_string());
		eq!("last block of the previous chain", hex(chain.last_block_hash), "1c83220b0d0c0c252dddd6a98c9b643e34625419b646c4a6447583c92c01dbcc".to_string());
		if names.iter().filter(fits).count() > 0 && sessions.values().any(|w| !w.is_empty() && fit(w)) { m.nontrivial() }
		if names.iter().any(|n| !fits(&n)) || sessions.values().any(|w| !fit(w)) { m.label("too long for its bound") }
		Ok(())
	})
}
// ---- collections and items of the NFT pallet
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nfts { cols: Vec<(u128, bool, Vec<u8>, Vec<(u128, Vec<u8>)>)>, new: Vec<u128>, seed: u64 }
fn nfts() -> BoxedStrategy<Nfts> {
	let meta = || prop::collection::vec(any::<u8>(), 0..=8);
	let id = || prop_oneof![0u128..6, any::<u128>()];
	(prop::collection::vec((id(), any::<bool>(), meta(), prop::collection::vec((id(), meta()), 0..5)), 0..5), prop::collection::vec(id(), 0..2), any::<u64>()).prop_map(|(cols, new, seed)| Nfts { cols, new, seed }).boxed()
}
fn nft_run(c: &Nfts, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		noise("Nft", &["Else", "Classes2"], c.seed);
		let p = "Nft";
		let cols: BTreeMap<u128, (bool, &Vec<u8>, BTreeMap<u128, &Vec<u8>>)> = c.cols.iter().map(|(i, l, d, it)| (*i, (*l, d, it.iter().map(|(i, d)| (*i, d)).collect()))).collect();
		let info = |l: bool, d: &Vec<u8>| [vec![l as u8], d.encode()].concat();
		let both = |a: &u128, b: &u128| [twox(a), twox(b)].concat();
		for (i, (l, d, items)) in &cols {
			sp_io::storage::set(&at(p, "Classes", twox(i)), &info(*l, d));
			for (n, d) in items { put(at(p, "Instances", both(i, n)), d) }
		}
		let before = state();
		pallet_nft::migration::v1::migrate::<Test>();
		let mut now: Raw = [(version(p), 1u16.encode())].into();
		for (i, (l, d, items)) in &cols {
			now.insert(at(p, "Collections", twox(i)), info(*l, d));
			let got = Nft::collections(i).ok_or(format!("collection {i} is gone"))?;
			eq!("collection", (got.collection_type, got.metadata.to_vec()), (if *l { CollectionType::LiquidityMining } else { CollectionType::Marketplace }, d.to_vec()));
			for (n, d) in items {
				now.insert(at(p, "Items", both(i, n)), d.encode());
				eq!("item", Nft::items(i, n).map(|x| x.metadata.to_vec()), Some(d.to_vec()));
			}
		}
		let old = [prefix(p, "Classes"), prefix(p, "Instances")];
		same(&before, |k| old.iter().any(|p| k.starts_with(p)), now)?;
		again("NFT", || { pallet_nft::migration::v1::migrate::<Test>(); })?;
		if cols.values().any(|x| !x.2.is_empty()) { m.nontrivial() }
		Ok(())
	})
}
// ---- democracy
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ref { i: u32, on: bool, end: u64, hash: u8, th: u8, delay: u64, tally: (u128, u128, u128) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gov { v: u16, max: u32, refs: Vec<Ref>, props: Vec<(u32, u8, u64)>, ext: Option<(u8, u8)>, seed: u64 }
fn gov() -> BoxedStrategy<Gov> {
	let v = || any::<u128>();
	let r = (0u32..9, any::<bool>(), any::<u64>(), any::<u8>(), 0u8..3, any::<u64>(), (v(), v(), v())).prop_map(|(i, on, end, hash, th, delay, tally)| Ref { i, on, end, hash, th, delay, tally });
	(prop_oneof![8 => Just(0u16), 1 => Just(1), 1 => Just(2)], 0u32..6, prop::collection::vec(r, 0..6), prop::collection::vec((any::<u32>(), any::<u8>(), 1u64..9), 0..7), proptest::option::of((any::<u8>(), 0u8..3)), any::<u64>())
		.prop_map(|(v, max, refs, props, ext, seed)| Gov { v, max, refs, props, ext, seed }).boxed()
}
fn th(t: u8) -> VoteThreshold { [VoteThreshold::SuperMajorityApprove, VoteThreshold::SuperMajorityAgainst, VoteThreshold::SimpleMajority][t as usize % 3] }
fn hash(h: u8) -> H256 { H256::from(twox_128(&[h]).repeat(2).try_into().map(|x: [u8; 32]| x).unwrap()) }
type Prop = Bounded<RuntimeCall, BlakeTwo256>;
fn legacy(h: u8) -> Prop { Bounded::Legacy { hash: hash(h), dummy: Default::default() } }
fn gov_run(c: &Gov, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		let p = "Democracy";
		MAX.with(|x| x.borrow_mut().1 = c.max);
		noise(p, &["Blacklist", "DepositOf", "VotingOf", "MetadataOf"], c.seed);
		for i in ["PublicPropCount", "ReferendumCount", "LowestUnbaked"] { put(at(p, i, vec![]), c.seed as u32) }
		let refs: BTreeMap<u32, &Ref> = c.refs.iter().map(|r| (r.i, r)).collect();
		fn info<P>(r: &Ref, p: P) -> ReferendumInfo<u64, P, u128> {
			if r.on { ReferendumInfo::Ongoing(ReferendumStatus { end: r.end, proposal: p, threshold: th(r.th), delay: r.delay, tally: Tally { ayes: r.tally.0, nays: r.tally.1, turnout: r.tally.2 } }) } else { ReferendumInfo::Finished { approved: r.th == 1, end: r.end } }
		}
		for (i, r) in &refs { put(at(p, "ReferendumInfoOf", twox(i)), info(r, hash(r.hash))) }
		let props: Vec<(u32, H256, u64)> = c.props.iter().map(|(i, h, w)| (*i, hash(*h), *w)).collect();
		if !props.is_empty() { put(at(p, "PublicProps", vec![]), &props) }
		if let Some((h, t)) = c.ext { put(at(p, "NextExternal", vec![]), (hash(h), th(t))) }
		if c.v != 0 { StorageVersion::new(c.v).put::<Democracy>() }
		let before = state();
		let run = || { pallet_democracy::migrations::v1::v1::Migration::<Test>::on_runtime_upgrade(); };
		run();
		if c.v != 0 { m.label("wrong version"); return same(&before, |_| false, Raw::new()) }
		let kept: Vec<(u32, Prop, u64)> = c.props.iter().take(c.max as usize).map(|(i, h, w)| (*i, legacy(*h), *w)).collect();
		let mut now: Raw = [(version(p), 1u16.encode()), (at(p, "PublicProps", vec![]), kept.encode())].into();
		for (i, r) in &refs {
			now.insert(at(p, "ReferendumInfoOf", twox(i)), info(r, legacy(r.hash)).encode());
			eq!("referendum", pallet_democracy::ReferendumInfoOf::<Test>::get(i), Some(info(r, legacy(r.hash))));
		}
		if let Some((h, t)) = c.ext { now.insert(at(p, "NextExternal", vec![]), (legacy(h), th(t)).encode()); }
		eq!("public proposals", pallet_democracy::PublicProps::<Test>::get().to_vec(), kept.clone());
		eq!("next external proposal", pallet_democracy::NextExternal::<Test>::get(), c.ext.map(|(h, t)| (legacy(h), th(t))));
		// an empty list and none are the same
		if kept.is_empty() { sp_io::storage::clear(&at(p, "PublicProps", vec![])); now.remove(&at(p, "PublicProps", vec![])); }
		same(&before, |k| *k == at(p, "PublicProps", vec![])[..], now)?;
		again("democracy", run)?;
		if refs.values().any(|r| r.on) && !props.is_empty() { m.nontrivial() }
		if c.props.len() > c.max as usize { m.label("too many proposals") }
		Ok(())
	})
}
// ---- what the democracy pallet holds of its users is given back
pub struct Un;
parameter_types! { pub const Name: &'static str = "Democracy"; }
impl pallet_democracy::migrations::unlock_and_unreserve_all_funds::UnlockConfig for Un {
	type AccountId = u64;
	type Currency = Balances;
	type PalletName = Name;
	type MaxVotes = ConstU32<5>;
	type MaxDeposits = ConstU32<5>;
	type DbWeight = ();
	type BlockNumber = u64;
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Funds { deps: Vec<(u32, Vec<u64>, u128)>, votes: Vec<(u64, u8, u128)>, free: Vec<u128>, other: Vec<(u64, u128)>, short: Vec<u64> }
fn funds() -> BoxedStrategy<Funds> {
	let w = || 1u64..6;
	let x = || prop_oneof![6 => 1u128..1_000, 1 => Just(0u128), 2 => 1u128..1 << 100];
	(prop::collection::vec((0u32..6, prop::collection::vec(w(), 0..6), x()), 0..5), prop::collection::vec((w(), 0u8..3, x()), 0..6), prop::collection::vec(x(), 5), prop::collection::vec((w(), x()), 0..5), prop::collection::vec(w(), 0..2))
		.prop_map(|(deps, votes, free, other, short)| Funds { deps, votes, free, other, short }).boxed()
}
const DEMOCRACY: LockIdentifier = *b"democrac";
fn funds_run(c: &Funds, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		let deps: BTreeMap<u32, (&Vec<u64>, u128)> = c.deps.iter().map(|(i, w, x)| (*i, (w, *x))).collect();
		let mut owed: BTreeMap<u64, u128> = BTreeMap::new();
		for (ws, x) in deps.values() { for w in *ws { *owed.entry(*w).or_default() += x } }
		let mut votes: BTreeMap<u64, u128> = BTreeMap::new();
		for (i, f) in c.free.iter().enumerate() { Balances::make_free_balance_be(&(i as u64 + 1), f + 1 + (1 << 110)); }
		for (i, (ws, x)) in &deps {
			put(at("Democracy", "DepositOf", twox(i)), (ws, x));
			for w in *ws { if !c.short.contains(w) { Balances::reserve(w, *x).map_err(|e| format!("{e:?}"))? } }
		}
		for (w, k, x) in &c.votes {
			// one by delegation, one by votes of which nothing is left but an earlier lock, one by nothing at all
			let v: Voting<u128, u64, u64, ConstU32<5>> = match k { 0 => Voting::Delegating { balance: *x, target: 9, conviction: Conviction::Locked1x, delegations: Delegations::default(), prior: Default::default() }, _ => Voting::default() };
			put(at("Democracy", "VotingOf", twox(w)), v);
			votes.insert(*w, *x);
			if *x > 0 && *k < 2 { Balances::set_lock(DEMOCRACY, w, *x, WithdrawReasons::all()) }
		}
		for (w, x) in &c.other { Balances::set_lock(*b"another1", w, *x, WithdrawReasons::all()); Balances::reserve(w, *x % (1 << 90)).map_err(|e| format!("{e:?}"))? }
		let accounts = || -> BTreeMap<u64, (u128, u128, Vec<(LockIdentifier, u128)>)> { (1..6).map(|w| (w, (Balances::free_balance(w), Balances::reserved_balance(w), Balances::locks(w).iter().map(|l| (l.id, l.amount)).collect()))).collect() };
		let issued = Balances::total_issuance();
		let mut want = accounts();
		pallet_democracy::migrations::unlock_and_unreserve_all_funds::UnlockAndUnreserveAllFunds::<Un>::on_runtime_upgrade();
		for (w, (f, r, l)) in want.iter_mut() {
			let back = owed.get(w).copied().unwrap_or(0).min(*r);
			*f += back;
			*r -= back;
			if votes.contains_key(w) { l.retain(|x| x.0 != DEMOCRACY) }
		}
		for (w, x) in &accounts() { eq!("free, reserved and locked of an account", (w, x), (w, &want[w])) }
		eq!("issuance", Balances::total_issuance(), issued);
		if owed.values().any(|x| *x > 0) && votes.values().any(|x| *x > 0) { m.nontrivial() }
		Ok(())
	})
}
mod codes;
fn main() {
	let mut c = Ctx::new(&std::env::args().nth(1).unwrap_or_default());
	c.assume("the old layouts are written as raw storage by their documented key and value encoding; key hashing, storage iteration, translate, drain and prefix moves are stand-ins written to the SDK's documentation");
	c.check("registry", "version 1 registries with metadata and locations, upgraded to version 2; non-trivial: several assets, one with metadata and a location", 20_000, 600_000, assets, registry);
	c.check("lists", "paused calls, collators of sessions, the duster's accounts and the previous chain, upgraded; non-trivial: a paused call and a session's collators are kept", 20_000, 600_000, small_case, small_run);
	c.check("collections", "collections and items under their old names, upgraded; non-trivial: a collection with items", 20_000, 600_000, nfts, nft_run);
	c.check("proposals", "referenda, public proposals and the next external proposal by hash, upgraded; non-trivial: an ongoing referendum and a proposal", 20_000, 600_000, gov, gov_run);
	c.check("funds", "deposits and vote locks among other reserves and locks, given back; non-trivial: a deposit and a vote lock", 20_000, 600_000, funds, funds_run);
	c.check("codes", "referral codes taken before the chains' codes are registered in advance; non-trivial: one of those codes was taken by someone else", 20_000, 600_000, codes::case, codes::run);
	std::process::exit(c.finish());
}
