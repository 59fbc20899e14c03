//! C60: which calls pass the runtime's filters, and who may do what.
use hydradx_calls::{extra::pallet_collective as col, rules::{governance as rg, system as rs, xcm as rx}, *};
use frame_support::traits::{Contains, InstanceFilter, PrivilegeCmp};
use frame_system::RawOrigin as Sys;
use kit::*;
use std::cmp::Ordering;
use std::collections::BTreeSet;
type Who = hydradx_calls::AccountId;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { hub: u32, listed: BTreeSet<u32>, paused: Vec<u16>, pool: bool, a: u32, b: u32, amount: u128 }
fn case() -> BoxedStrategy<Case> {
	let id = || prop_oneof![6 => 0u32..5, 1 => any::<u32>()];
	(id(), proptest::collection::btree_set(id(), 0..4), proptest::collection::vec(any::<u16>(), 0..12), prop::bool::weighted(0.7), id(), id(), prop_oneof![Just(0u128), any::<u128>()]).prop_map(|(hub, listed, paused, pool, a, b, amount)| Case { hub, listed, paused, pool, a, b, amount }).boxed()
}
const FREE: &[&str] = &["System", "Timestamp", "ParachainSystem"];
/// May the call be made at all?
fn may(c: &Case, p: &str, n: &str, paused: bool) -> bool {
	if FREE.contains(&p) { return true }
	if paused { return false }
	let omnipool = c.a == c.hub || c.listed.contains(&c.a);
	match (p, n) {
		("Tokens", "transfer" | "transfer_keep_alive" | "transfer_all") | ("Currencies", "transfer") => !(c.pool && omnipool),
		("Balances", "transfer_allow_death" | "transfer_keep_alive" | "transfer_all") | ("Currencies", "transfer_native_currency") => !c.pool,
		("XYK", "create_pool") => c.a != c.hub && c.b != c.hub,
		("EVM", "create" | "create2") => false,
		("PolkadotXcm", n) => n == "send",
		("OrmlXcm", _) => false,
		_ => true,
	}
}
/// May another chain make the call, if it may be made?
fn far(p: &str, n: &str) -> bool {
	match p {
		"Timestamp" | "Balances" | "Treasury" | "Vesting" | "Proxy" | "Omnipool" | "OmnipoolLiquidityMining" | "OTC" | "CircuitBreaker" | "Router" | "DCA" | "MultiTransactionPayment" | "Currencies" | "Tokens" | "OrmlXcm" => true,
		"System" => matches!(n, "kill_prefix" | "set_heap_pages"),
		"Utility" => n == "as_derivative",
		"CollatorSelection" => matches!(n, "set_desired_candidates" | "set_candidacy_bond" | "register_as_candidate" | "leave_intent"),
		"Session" => n == "purge_keys",
		"Uniques" => !matches!(n, "destroy" | "redeposit" | "set_collection_max_supply"),
		"Identity" => matches!(n, "add_registrar" | "set_identity" | "clear_identity" | "request_judgement" | "cancel_request" | "set_fee" | "set_account_id" | "set_fields" | "provide_judgement" | "kill_identity" | "add_sub" | "rename_sub" | "remove_sub" | "quit_sub"),
		_ => false,
	}
}
type P = rs::ProxyType;
const PROXIES: [P; 6] = [P::Any, P::CancelProxy, P::Governance, P::Transfer, P::Liquidity, P::LiquidityMining];
fn proxied(t: P, p: &str, n: &str) -> bool {
	match t {
		P::Any => true,
		P::CancelProxy => (p, n) == ("Proxy", "reject_announcement"),
		P::Governance => matches!(p, "Democracy" | "Council" | "TechnicalCommittee" | "Elections" | "Treasury" | "Tips" | "Utility"),
		P::Transfer => matches!(p, "Balances" | "Currencies" | "Tokens"),
		P::Liquidity => p == "Omnipool" && matches!(n, "add_liquidity" | "remove_liquidity"),
		P::LiquidityMining => p == "OmnipoolLiquidityMining" && matches!(n, "deposit_shares" | "redeposit_shares" | "claim_rewards" | "withdraw_shares"),
	}
}
fn calls(c: &Case, m: &mut Meter) -> Res {
	let paused: BTreeSet<usize> = c.paused.iter().map(|k| *k as usize % CALLS.len()).collect();
	world(|w| *w = World { hub: c.hub, listed: c.listed.clone(), paused: paused.iter().map(|k| (CALLS[*k].0.to_string(), CALLS[*k].1.to_string())).collect() });
	let (dest, other) = if c.pool { (Who::new(POOL), Who::new([7; 32])) } else { (Who::new([8; 32]), Who::new(POOL)) };
	let mut refused = 0;
	for (k, (p, n)) in CALLS.iter().enumerate() {
		let call = make(k, &dest, &other, c.a, c.b, c.amount);
		ensure_eq!(name_of(&call), (p.to_string(), n.to_string()), "name");
		let want = may(c, p, n, paused.contains(&k));
		refused += (!want && !paused.contains(&k)) as u32;
		ensure_eq!(rs::CallFilter::contains(&call), want, "{call:?} (paused: {}) may be made", paused.contains(&k));
		ensure_eq!(rs::RtFilter::contains(&call), want, "{call:?} passes what the runtime is configured with");
		ensure_eq!(rx::SafeCallFilter::contains(&call), want && far(p, n), "{call:?} may be made by another chain");
		for t in PROXIES { ensure_eq!(<rs::RtProxy as InstanceFilter<RuntimeCall>>::filter(&t, &call), proxied(t, p, n), "{call:?} may be made by a proxy of kind {t:?}"); }
	}
	for s in PROXIES { for t in PROXIES {
		let over = <P as InstanceFilter<RuntimeCall>>::is_superset(&s, &t);
		ensure_eq!(over, s == t || s == P::Any, "{s:?} covers {t:?}");
	} }
	ensure_eq!(P::default(), P::Any, "the default proxy");
	if refused > 20 { m.nontrivial() }
	Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rule { Root, Signed, Never, Tech(u32, u32), Council(u32, u32), OverHalfCouncil, TechMember }
use Rule::*;
/// who may pass each door
fn rule(door: &str) -> Option<Rule> {
	Some(match door {
		"IdentityUsernames" | "PreimageManager" | "CouncilSetMembers" | "TechSetMembers" | "DemBlacklist" | "RegistryRegister" | "OmnipoolAuthority" | "StableAuthority" | "ReferralsAuthority" | "VestingTransfer" => Root,
		"PaymentCurrencies" | "PauseUpdate" | "TrieControl" | "RegistryUpdate" | "OmnipoolTechnical" | "BreakerTechnical" | "OracleAuthority" | "DusterBlacklist" | "DcaTechnical" | "RouterTechnical" | "LbpCreate" => Tech(2, 3),
		"OmnipoolLmCreate" | "XykLmCreate" | "DemInstant" | "DemCancelProposal" => Tech(1, 1),
		"XcmpController" | "DemFastTrack" => Tech(1, 2),
		"CollatorUpdate" | "IdentityForce" | "IdentityRegistrar" | "TreasuryReject" | "SchedulerSchedule" | "XcmSovereign" | "DemExternal" | "DemExternalMajority" => OverHalfCouncil,
		"UniquesForce" | "StakingAuthority" | "XcmAdmin" | "DemCancellation" => Council(2, 3),
		"DemExternalDefault" => Council(1, 1),
		"TreasuryApprove" => Council(3, 5),
		"DemSubmit" | "BondsIssue" => Signed,
		"TreasurySpend" | "UniquesCreate" => Never,
		"DemVeto" => TechMember,
		_ => return None,
	})
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum O { Root, Signed(u8), None, Council(u32, u32), Tech(u32, u32), CouncilMember(u8), TechMember(u8) }
fn origin(o: &O) -> RuntimeOrigin {
	let w = |x: &u8| Who::new([*x; 32]);
	match o {
		O::Root => OriginCaller::system(Sys::Root), O::Signed(x) => OriginCaller::system(Sys::Signed(w(x))), O::None => OriginCaller::system(Sys::None),
		O::Council(n, m) => OriginCaller::Council(col::RawOrigin::Members(*n, *m)), O::Tech(n, m) => OriginCaller::TechnicalCommittee(col::RawOrigin::Members(*n, *m)),
		O::CouncilMember(x) => OriginCaller::Council(col::RawOrigin::Member(w(x))), O::TechMember(x) => OriginCaller::TechnicalCommittee(col::RawOrigin::Member(w(x))),
	}
}
fn passes(r: Rule, o: &O) -> bool {
	match (r, o) {
		(Never, _) => false,
		(Signed, O::Signed(_)) | (TechMember, O::TechMember(_)) => true,
		(Signed | TechMember, _) => false,
		(_, O::Root) => true,
		(Tech(n, d), O::Tech(x, y)) | (Council(n, d), O::Council(x, y)) => *x as u64 * d as u64 >= n as u64 * *y as u64,
		(OverHalfCouncil, O::Council(x, y)) => *x as u64 * 2 > *y as u64,
		_ => false,
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair { l: O, r: O }
fn someone() -> BoxedStrategy<O> {
	let share = || (1u32..=30).prop_flat_map(|m| (0..=m, Just(m)));
	prop_oneof![1 => Just(O::Root), 1 => Just(O::None), 1 => (0u8..4).prop_map(O::Signed), 1 => (0u8..4).prop_map(O::CouncilMember), 1 => (0u8..4).prop_map(O::TechMember), 6 => share().prop_map(|(n, m)| O::Council(n, m)), 6 => share().prop_map(|(n, m)| O::Tech(n, m))].boxed()
}
fn pair() -> BoxedStrategy<Pair> { (someone(), someone()).prop_map(|(l, r)| Pair { l, r }).boxed() }
fn people(c: &Pair, m: &mut Meter) -> Res {
	let doors = doors();
	for (name, door) in &doors {
		let Some(r) = rule(name) else { return Err(format!("{name} has no rule")) };
		for o in [&c.l, &c.r] { ensure_eq!(door(origin(o)), passes(r, o), "{o:?} at {name} ({r:?})"); }
	}
	let want = if c.l == c.r { Some(Ordering::Equal) } else { match (&c.l, &c.r) {
		(O::Root, _) => Some(Ordering::Greater),
		(O::Council(a, b), O::Council(x, y)) => Some((*a as u64 * *y as u64).cmp(&(*x as u64 * *b as u64))),
		_ => None,
	} };
	ensure_eq!(rg::OriginPrivilegeCmp::cmp_privilege(&origin(&c.l), &origin(&c.r)), want, "{:?} against {:?}", c.l, c.r);
	ensure_eq!(rg::SchedulerCmp::cmp_privilege(&origin(&c.l), &origin(&c.r)), want, "{:?} against {:?} in the scheduler", c.l, c.r);
	if matches!((&c.l, &c.r), (O::Council(..), O::Council(..)) | (O::Tech(..), _) | (_, O::Tech(..))) { m.nontrivial() }
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("the filters, proxy kinds and origins are taken out of runtime/hydradx/src at build time and run over a call enum built from construct_runtime and the repository's pallets; the calls of pallets outside the repository are listed by hand; pallet-collective is a stand-in");
	c.check("calls", "every call of the runtime against the call filter, the filter for other chains and the proxy kinds, over hub assets, listed assets, destinations and paused calls; non-trivial: over twenty calls are refused", 1_500, 40_000, case, calls);
	c.check("people", "origins (root, none, signed, shares of council and committee, members) at every place that asks for one, and compared by the scheduler; non-trivial: a share of a body is among them", 20_000, 600_000, pair, people);
	std::process::exit(c.finish());
}
