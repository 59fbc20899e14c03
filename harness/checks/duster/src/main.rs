use frame_support::traits::Contains;
use frame_system::RawOrigin;
use hydradx_traits::pools::DustRemovalAccountWhitelist;
use kit::*;
use orml_traits::{GetByKey, OnDust};
use pallet_duster::{DusterWhitelist, Event as E};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Duster: pallet_duster });
const NATIVE: AssetId = 0;
const REWARDS: u64 = 8;
const DUST: u64 = 9;
#[derive(Default)]
struct World { min: BTreeMap<AssetId, u128>, reward: u128 }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
pub struct Mins;
impl GetByKey<AssetId, u128> for Mins { fn get(a: &AssetId) -> u128 { world(|w| w.min.get(a).copied().unwrap_or(0)) } }
parameter_types! { pub Reward: u128 = world(|w| w.reward); pub const Native: AssetId = NATIVE; }
impl pallet_duster::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type Amount = i128;
	type CurrencyId = AssetId;
	type MultiCurrency = Tokens;
	type MinCurrencyDeposits = Mins;
	type Reward = Reward;
	type NativeCurrencyId = Native;
	type BlacklistUpdateOrigin = frame_system::EnsureRoot<u64>;
	type WeightInfo = ();
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Dust { by: Option<u64>, who: u64, a: AssetId },
	List { root: bool, who: u64, on: bool },
	Trait { who: u64, on: bool },
	OnDust { who: u64, a: AssetId, x: A },
	Min { a: AssetId, of: u64, off: i8 },
	Pay { from: u64, to: u64, a: AssetId, x: A },
	Reserve { who: u64, a: AssetId, x: A },
	Unreserve { who: u64, a: AssetId },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { reward: u128, fund: u128, bal: Vec<u128>, mins: Vec<u128>, black: Vec<u64>, ops: Vec<Op> }
fn acc() -> BoxedStrategy<u64> { prop_oneof![10 => 1u64..=4, 1 => Just(REWARDS), 1 => Just(DUST)].boxed() }
fn op() -> BoxedStrategy<Op> {
	let x = || prop_oneof![2 => amt(), 2 => (0u128..30).prop_map(A::Abs)];
	prop_oneof![
		12 => (prop::option::weighted(0.95, 1u64..=4), acc(), 0u32..3).prop_map(|(by, who, a)| Op::Dust { by, who, a }),
		2 => (prop::bool::weighted(0.9), acc(), any::<bool>()).prop_map(|(root, who, on)| Op::List { root, who, on }),
		1 => (acc(), any::<bool>()).prop_map(|(who, on)| Op::Trait { who, on }),
		2 => (acc(), 0u32..3, x()).prop_map(|(who, a, x)| Op::OnDust { who, a, x }),
		4 => (0u32..3, acc(), -1i8..=2).prop_map(|(a, of, off)| Op::Min { a, of, off }),
		4 => (acc(), acc(), 0u32..3, x()).prop_map(|(from, to, a, x)| Op::Pay { from, to, a, x }),
		2 => (acc(), 0u32..3, x()).prop_map(|(who, a, x)| Op::Reserve { who, a, x }),
		2 => (acc(), 0u32..3).prop_map(|(who, a)| Op::Unreserve { who, a }),
	].boxed()
}
fn case(n: usize) -> BoxedStrategy<Case> {
	let v = || prop_oneof![3 => 1u128..100, 1 => mag(1, 1 << 90)];
	(prop_oneof![1 => Just(0u128), 4 => 1u128..20], prop_oneof![1 => 1u128..30, 2 => 100u128..1000], proptest::collection::vec(v(), 12), proptest::collection::vec(v(), 3), proptest::collection::vec(acc(), 0..2), proptest::collection::vec(op(), 1..n))
		.prop_map(|(reward, fund, bal, mins, black, ops)| Case { reward, fund, bal, mins, black, ops }).boxed()
}
/// reserved balances are held at the account `who + 1000`
#[derive(Clone, Default)]
struct M { l: Ledger, black: BTreeSet<u64> }
impl M { fn all(&self, w: u64, a: AssetId) -> u128 { self.l.get(&w, a) + self.l.get(&(w + 1000), a) } }
fn run(c: &Case, m: &mut Meter) -> Res {
	world(|w| { w.reward = c.reward; w.min = (0u32..3).zip(c.mins.iter().copied()).collect(); });
	let mut s = M::default();
	let mut bal = vec![(REWARDS, NATIVE, c.fund)];
	for (i, v) in c.bal.iter().enumerate() { bal.push((1 + i as u64 / 3, i as u32 % 3, *v)); }
	for (w, a, v) in &bal { s.l.mint(w, *a, *v); }
	s.black = c.black.iter().copied().collect();
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	pallet_duster::GenesisConfig::<Test> { account_blacklist: c.black.clone(), reward_account: Some(REWARDS), dust_account: Some(DUST) }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let mut n = s.clone();
			let (got, want): (DispatchResult, Option<Vec<E<Test>>>) = match *o {
				Op::Dust { by, who, a } => {
					let o = by.map_or(RawOrigin::None, RawOrigin::Signed).into();
					let got = atomic(what, || Duster::dust_account(o, who, a))?;
					let want = (|| {
						let by = by?;
						let x = s.all(who, a);
						if s.black.contains(&who) || x == 0 || x >= Mins::get(&a) { return None }
						n.l.mv(a, &who, &DUST, x)?;
						let mut paid = n.clone();
						if paid.l.mv(NATIVE, &REWARDS, &by, c.reward).is_some() { n = paid; if c.reward > 0 { m.label("rewarded"); } } else { m.label("no reward left"); }
						m.label("dusted");
						m.nontrivial();
						Some(vec![E::Dusted { who, amount: x }])
					})();
					(got, want)
				}
				Op::List { root, who, on } => {
					let o = || if root { RawOrigin::Root } else { RawOrigin::Signed(who) };
					let got = atomic(what, || if on { Duster::add_nondustable_account(o().into(), who) } else { Duster::remove_nondustable_account(o().into(), who) })?;
					let want = if !root { None } else if on { n.black.insert(who); Some(vec![E::Added { who }]) } else if n.black.remove(&who) { Some(vec![E::Removed { who }]) } else { None };
					(got, want)
				}
				Op::Trait { who, on } => {
					let got = atomic(what, || if on { <Duster as DustRemovalAccountWhitelist<u64>>::add_account(&who) } else { <Duster as DustRemovalAccountWhitelist<u64>>::remove_account(&who) })?;
					let want = if on { n.black.insert(who); Some(vec![]) } else if n.black.remove(&who) { Some(vec![]) } else { None };
					(got, want)
				}
				Op::OnDust { who, a, x } => {
					let x = x.of(s.l.get(&who, a));
					<Duster as OnDust<u64, AssetId, u128>>::on_dust(&who, a, x);
					let mut t = n.clone();
					if t.l.mv(a, &who, &DUST, x).is_some() { n = t; }
					(Ok(()), Some(vec![]))
				}
				Op::Min { a, of, off } => { let x = s.all(of, a); let v = if off < 0 { x.saturating_sub(1) } else { x + off as u128 }; world(|w| w.min.insert(a, v)); (Ok(()), Some(vec![])) }
				Op::Pay { from, to, a, x } => { let x = x.of(s.l.get(&from, a)); (atomic(what, || <Tokens as MultiCurrency<u64>>::transfer(a, &from, &to, x))?, n.l.mv(a, &from, &to, x).map(|_| vec![])) }
				Op::Reserve { who, a, x } => { let x = x.of(s.l.get(&who, a)); (atomic(what, || <Tokens as MultiReservableCurrency<u64>>::reserve(a, &who, x))?, n.l.mv(a, &who, &(who + 1000), x).map(|_| vec![])) }
				Op::Unreserve { who, a } => { let x = s.l.get(&(who + 1000), a); <Tokens as MultiReservableCurrency<u64>>::unreserve(a, &who, x); n.l.mv(a, &(who + 1000), &who, x).unwrap(); (Ok(()), Some(vec![])) }
			};
			agree(what, &got, &want)?;
			if let Some(ev) = want {
				s = n;
				let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Duster(e) => Some(e), _ => None }).collect();
				ensure_eq!(e, ev, "{}: events", what());
			} else { m.label("refused"); }
			same_ledger(&s.l, &[1, 2, 3, 4, REWARDS, DUST], &[0, 1, 2], |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for w in [1, 2, 3, 4, REWARDS, DUST] {
				for a in 0..3 { ensure_eq!(<Tokens as MultiReservableCurrency<u64>>::reserved_balance(a, &w), s.l.get(&(w + 1000), a), "{}: reserved of {w} in {a}", what()); }
				ensure_eq!(DusterWhitelist::<Test>::contains(&w), s.black.contains(&w), "{}: {w} listed", what());
				ensure_eq!(Duster::blacklisted(w).is_some(), s.black.contains(&w), "{}: {w} listed", what());
			}
			ensure_eq!((Duster::reward_account(), Duster::dust_dest_account()), (Some(REWARDS), Some(DUST)), "{}: accounts", what());
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; minimal balances by a table");
	c.check("dusting", "histories of dusting, listing, transfers, reserves and changed minimal balances against an exact model; non-trivial: an account was dusted", 40_000, 800_000, || case(40), run);
	std::process::exit(c.finish());
}
