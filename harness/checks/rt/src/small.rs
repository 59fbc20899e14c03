//! C61: small parts of the runtime that others rely on.
use super::*;
use frame_support::traits::tokens::Pay;
use hydradx_traits::{AccountIdFor, AssetKind, AssetPairAccountIdFor, Source};
use pallet_referrals::Level;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Names { ids: Vec<(u32, u32)>, tag: Vec<u8> }
fn names() -> BoxedStrategy<Names> {
	let id = || prop_oneof![3 => 0u32..6, 2 => prop_oneof![Just(256u32), Just(65536), Just(u32::MAX), Just(1 << 24)], 1 => any::<u32>()];
	(proptest::collection::vec((id(), id()), 1..12), proptest::collection::vec(prop_oneof![97u8..123, Just(0u8)], 0..6)).prop_map(|(ids, tag)| Names { ids, tag }).boxed()
}
/// Distinct things get distinct accounts; the order of a pair does not matter.
fn named(c: &Names, m: &mut Meter) -> Res {
	let tag = String::from_utf8(c.tag.clone()).unwrap();
	let mut seen: BTreeMap<AccountId, (u32, u32)> = BTreeMap::new();
	for (a, b) in &c.ids {
		let x = <ra::RtXykAccount as AssetPairAccountIdFor<u32, AccountId>>::from_assets(*a, *b, &tag);
		ensure_eq!(x, <ra::RtXykAccount as AssetPairAccountIdFor<u32, AccountId>>::from_assets(*b, *a, &tag), "pair {a}, {b} the other way round");
		ensure_eq!(x, <ra::RtLbpAccount as AssetPairAccountIdFor<u32, AccountId>>::from_assets(*a, *b, &tag), "pair {a}, {b}");
		let key = (*a.min(b), *a.max(b));
		if let Some(o) = seen.insert(x.clone(), key) { must!(o == key, "pairs {o:?} and {key:?} share an account"); } else { m.nontrivial() }
		let y = <ra::RtLbpAccount as AssetPairAccountIdFor<u32, AccountId>>::from_assets(*a, *b, &format!("{tag}/"));
		must!(x != y, "pair {a}, {b}: same account under two tags");
		let mut want = c.tag.clone();
		want.extend(key.0.to_le_bytes());
		want.extend(key.1.to_le_bytes());
		ensure_eq!(x.as_ref() as &[u8], &sp_core::hashing::blake2_256(&want)[..], "account of pair {a}, {b}");
	}
	let mut seen: BTreeMap<AccountId, u32> = BTreeMap::new();
	for a in c.ids.iter().flat_map(|(a, b)| [*a, *b]) {
		let x = <ra::RtStableAccount as AccountIdFor<u32>>::from_assets(&a, Some(&c.tag));
		if let Some(o) = seen.insert(x.clone(), a) { ensure_eq!(o, a, "pools {o} and {a} share an account"); }
		let mut want = c.tag.clone();
		want.extend(a.to_le_bytes());
		ensure_eq!(<ra::RtStableAccount as AccountIdFor<u32>>::name(&a, Some(&c.tag)), want, "name of pool {a}");
		ensure_eq!(<ra::RtStableAccount as AccountIdFor<u32>>::name(&a, None), a.to_le_bytes().to_vec(), "bare name of pool {a}");
		ensure_eq!(x.as_ref() as &[u8], &sp_core::hashing::blake2_256(&want)[..], "account of pool {a}");
	}
	Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pot2 { start: u128, pays: Vec<(u8, A)>, dust: Vec<u128>, frozen: u128 }
fn pots() -> BoxedStrategy<Pot2> {
	(prop_oneof![mag(ED, 1_000 * ED), Just(0u128), mag(1, 1 << 100)], proptest::collection::vec((0u8..4, amt()), 1..8), proptest::collection::vec(mag(0, 2 * ED), 0..4), prop_oneof![3 => Just(0u128), 1 => mag(1, 10 * ED)]).prop_map(|(start, pays, dust, frozen)| Pot2 { start, pays, dust, frozen }).boxed()
}
fn pot(c: &Pot2, m: &mut Meter) -> Res {
	fresh(frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap(), || {
		System::set_block_number(1);
		let t = TreasuryAccount::get();
		ensure_eq!(t, frame_support::PalletId(*b"py/trsry").pot(), "treasury");
		let _ = Balances::deposit_creating(&t, c.start);
		if c.frozen > 0 { <Currencies as MultiLockableCurrency<AccountId>>::set_lock(*b"anything", 0, &t, c.frozen).unwrap(); }
		for (w, a) in &c.pays {
			let (have, held) = (Balances::free_balance(&t), Balances::free_balance(acc(*w)));
			let x = a.of(have);
			let issued = Balances::total_issuance();
			System::reset_events();
			let before = state();
			let r = with_storage_layer(|| <hydradx_rt::governance::RtPay as Pay>::pay(&acc(*w), (), x));
			let after = state();
			let dust = take_events!(Runtime).iter().map(|e| match e { RuntimeEvent::Balances(pallet_balances::Event::DustLost { amount, .. }) => *amount, _ => 0 }).sum::<u128>();
			match r {
				Ok(_) => { ensure_eq!(Balances::free_balance(acc(*w)), held + x, "paid {x} to {w}"); must!(Balances::free_balance(&t) + dust == have - x || dust > 0, "treasury paid {x} of {have}, has {}", Balances::free_balance(&t)); if x > 0 { m.nontrivial() } }
				Err(_) => { must!(after == before, "refused payment left a trace"); must!(x == 0 || x > have.saturating_sub(c.frozen.max(0)) || held + x < ED || have - x < ED, "payment of {x} of {have} (locked {}) to an account with {held} refused", c.frozen) }
			}
			must!(Balances::total_issuance() == issued || dust > 0, "payment changed issuance");
			ensure_eq!(Balances::total_issuance(), hdx(), "issued and held after payment");
		}
		// an account falls below the minimum
		for d in &c.dust {
			let w = AccountId::new([99; 32]);
			let _ = Balances::deposit_creating(&w, 3 * ED);
			System::reset_events();
			let (had, issued, keep) = (Balances::free_balance(&t), Balances::total_issuance(), d % ED);
			with_storage_layer(|| Balances::transfer_allow_death(RawOrigin::Signed(w.clone()).into(), acc(0), 3 * ED - keep)).map_err(|e| format!("{e:?}"))?;
			let lost = had == 0 && keep < ED;
			ensure_eq!((Balances::free_balance(&t) - had, issued - Balances::total_issuance()), if lost { (0, keep) } else { (keep, 0) }, "dust of {keep}: treasury's gain, issuance's loss");
			ensure_eq!(Balances::total_issuance(), hdx(), "issued and held after dust of {keep}");
			if keep > 0 { m.label("dust"); }
		}
		Ok(())
	})
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lists { white: Vec<u8>, sources: Vec<(u8, u32, u32)>, listed: Vec<(u8, u32, u32)>, external: Vec<u32>, w: Vec<(u64, u64)>, len: u32 }
fn lists() -> BoxedStrategy<Lists> {
	let s = || proptest::collection::vec((0u8..4, 0u32..6, 0u32..6), 0..6);
	(proptest::collection::vec(0u8..7, 0..4), s(), s(), proptest::collection::vec(1u32..6, 0..3), proptest::collection::vec((mag(0, u64::MAX as u128).prop_map(|x| x as u64), any::<u64>()), 2..6), any::<u32>()).prop_map(|(white, sources, listed, external, w, len)| Lists { white, sources, listed, external, w, len }).boxed()
}
fn source(i: u8) -> Source { match i { 0 => *b"omnipool", 1 => *b"hydraxyk", 2 => *b"stablesw", _ => *b"other\0\0\0" } }
fn listed(c: &Lists, m: &mut Meter) -> Res {
	fresh(frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap(), || {
		System::set_block_number(1);
		let root = || RuntimeOrigin::from(RawOrigin::Root);
		for w in &c.white { let _ = Duster::add_nondustable_account(root(), acc(*w)); }
		let pots: Vec<AccountId> = [*b"py/trsry", *b"py/vstng", *b"referral", *b"pltbonds"].iter().map(|x| frame_support::PalletId(*x).pot()).collect();
		ensure_eq!({ let mut a = get_all_module_accounts(); a.sort(); a }, { let mut a = pots.clone(); a.sort(); a }, "accounts of pallets");
		for w in accounts().iter().chain(&pots) {
			let want = pots.contains(w) || c.white.iter().any(|x| acc(*x) == *w);
			ensure_eq!(ra::RtWhitelist::contains(w), want, "{w:?} may keep dust");
			if want { m.nontrivial() }
			ensure_eq!(ra::RtBreakerWhitelist::contains(w), *w == pots[0], "{w:?} above the breaker");
		}
		for id in 1u32..6 { AssetRegistry::register(root(), Some(id), None, if c.external.contains(&id) { pallet_asset_registry::AssetType::External } else { pallet_asset_registry::AssetType::Token }, Some(1), None, None, None, None, !c.external.contains(&id)).map_err(|e| format!("{e:?}"))?; }
		for (s, a, b) in &c.listed { let _ = EmaOracle::add_oracle(root(), source(*s), (*a, *b)); }
		for (s, a, b) in c.sources.iter().chain(&c.listed) {
			// an oracle takes what is listed by hand, and from any source pairs none of which is external; XYK and others alike
			let t = (source(*s), *a, *b);
			let safe = |x: u32| x > 0 && !c.external.contains(&x);
			let want = (safe(*a) && safe(*b)) || pallet_ema_oracle::WhitelistedAssets::<Runtime>::get().contains(&(t.0, (t.1, t.2)));
			ensure_eq!(ra::RtOracleWhitelist::contains(&t), want, "{t:?} in the oracle");
			if a <= b && c.listed.iter().any(|l| l.0 == *s && (l.1.min(l.2), l.1.max(l.2)) == (*a, *b)) { must!(want, "{t:?} was listed"); }
		}
		for (k, want) in [(AssetKind::Token, true), (AssetKind::XYK, true), (AssetKind::StableSwap, true), (AssetKind::Bond, false), (AssetKind::External, false)] { ensure_eq!(ra::RtBondKinds::contains(&k), want, "bonds of {k:?}"); }
		// fees for weight and length
		let fee = |w: (u64, u64)| <hydradx_rt::system::RtWeightToFee as frame_support::weights::WeightToFee>::weight_to_fee(&frame_support::weights::Weight::from_parts(w.0, w.1));
		let base = hydradx_rt::system::ExtrinsicBaseWeight::get().ref_time() as u128;
		let cents = primitives::constants::currency::CENTS / 4;
		for w in &c.w {
			let exact = b(cents) * b(w.0 as u128) / b(10 * base);
			let got = b(fee(*w));
			// the coefficient is kept in parts per billion
			let slack = b(w.0 as u128) / b(1_000_000_000) + b(2);
			must!(got <= exact + b(1) && got + slack >= exact, "fee for {w:?}: {got}, exactly {exact}");
			for v in &c.w { if v.0 <= w.0 { must!(fee(*v) <= fee(*w), "fee for {v:?} above that for {w:?}"); } }
			ensure_eq!(fee(*w), fee((w.0, 0)), "fee depends on the size of the proof");
		}
		ensure_eq!(<hydradx_rt::system::RtLengthToFee as frame_support::weights::WeightToFee>::weight_to_fee(&frame_support::weights::Weight::from_parts(c.len as u64, 0)), c.len as u128 * (10 * primitives::constants::currency::MILLICENTS / 4), "fee for {} bytes", c.len);
		Ok(())
	})
}
fn levels(s: &mut Vec<String>) -> Result<u64, String> {
	let all = [Level::None, Level::Tier0, Level::Tier1, Level::Tier2, Level::Tier3, Level::Tier4];
	let mut last: Option<(u128, Permill, Permill, Permill)> = None;
	for l in all {
		let (v, f) = <ra::RtLevels as GetByKey<Level, (u128, pallet_referrals::FeeDistribution)>>::get(&l);
		must!(f.referrer.deconstruct() + f.trader.deconstruct() + f.external.deconstruct() == 500_000, "{l:?}: {f:?} does not give half of the fee");
		if let Some((v0, r0, t0, e0)) = last { must!(v >= v0 && f.referrer >= r0 && f.trader >= t0 && f.external <= e0, "{l:?}: {v}, {f:?} below the level before"); }
		last = Some((v, f.referrer, f.trader, f.external));
		s.push(format!("{l:?} {v} {f:?}"));
	}
	for a in &all[1..] { if let Some(n) = a.increase_next() { let v = |l: &Level| <ra::RtLevels as GetByKey<Level, (u128, pallet_referrals::FeeDistribution)>>::get(l).0; must!(v(&n) > v(a), "next level costs nothing"); } }
	Ok(all.len() as u64)
}
trait Next { fn increase_next(&self) -> Option<Level>; }
impl Next for Level { fn increase_next(&self) -> Option<Level> { match self { Level::Tier0 => Some(Level::Tier1), Level::Tier1 => Some(Level::Tier2), Level::Tier2 => Some(Level::Tier3), Level::Tier3 => Some(Level::Tier4), _ => None } } }
pub fn main(c: &mut Ctx) {
	c.check("accounts", "asset pairs and pool ids under a tag; non-trivial: at least one account was derived", 8_000, 100_000, names, named);
	c.check("treasury", "payments out of the treasury and dust into it, with locks; non-trivial: a payment was made", 8_000, 150_000, pots, pot);
	c.check("lists", "whitelists of accounts, oracle sources and bond kinds, fees for weight and length; non-trivial: an account on a list was asked for", 6_000, 100_000, lists, listed);
	c.exhaustive("levels", "all referral levels", levels);
}
