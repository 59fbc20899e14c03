use kit::*;
use pallet_collator_rewards::Event as E;
use pallet_session::SessionManager;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Rewards: pallet_collator_rewards });
#[derive(Clone, Debug, PartialEq)]
enum Seen { New(u32), Start(u32), End(u32) }
#[derive(Default)]
struct World { reward: u128, ed: u128, max: u32, out: Vec<u64>, next: Option<Vec<u64>>, seen: Vec<Seen> }
thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
orml_traits::parameter_type_with_key! { pub Eds: |_c: u32| -> u128 { world(|w| w.ed) }; }
system_config!(Test, u64, ());
tokens_config!(Test, Eds, Nothing, ());
pub struct Inner;
impl SessionManager<u64> for Inner {
	fn new_session(i: u32) -> Option<Vec<u64>> { world(|w| { w.seen.push(Seen::New(i)); w.next.clone() }) }
	fn start_session(i: u32) { world(|w| w.seen.push(Seen::Start(i))) }
	fn end_session(i: u32) { world(|w| w.seen.push(Seen::End(i))) }
}
parameter_types! { pub Reward: u128 = world(|w| w.reward); pub Max: u32 = world(|w| w.max); pub Out: Vec<u64> = world(|w| w.out.clone()); pub const Cur: AssetId = 3; }
impl pallet_collator_rewards::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type CurrencyId = AssetId;
	type Currency = Tokens;
	type RewardPerCollator = Reward;
	type RewardCurrencyId = Cur;
	type ExcludedCollators = Out;
	type SessionManager = Inner;
	type MaxCandidates = Max;
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { New { i: u32, who: Option<Vec<u64>> }, Start { i: u32 }, End { i: u32 }, Exclude(Vec<u64>), Spend { who: u64, x: A } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { reward: u128, ed: u128, max: u32, start: Vec<u128>, ops: Vec<Op> }
fn set() -> BoxedStrategy<Vec<u64>> { proptest::collection::vec(1u64..7, 0..6).boxed() }
fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		5 => (0u32..5, prop::option::weighted(0.9, set())).prop_map(|(i, who)| Op::New { i, who }),
		2 => (0u32..5).prop_map(|i| Op::Start { i }),
		5 => (0u32..5).prop_map(|i| Op::End { i }),
		1 => set().prop_map(Op::Exclude),
		1 => (1u64..7, amt()).prop_map(|(who, x)| Op::Spend { who, x }),
	].boxed()
}
fn case(n: usize) -> BoxedStrategy<Case> {
	(prop_oneof![1 => Just(0u128), 6 => mag(1, 1 << 90), 1 => mag(1 << 120, u128::MAX)], prop_oneof![3 => Just(1u128), 1 => mag(1, 1 << 40)], prop_oneof![1 => 0u32..4, 3 => 4u32..7], proptest::collection::vec(prop_oneof![Just(0u128), mag(1 << 40, 1 << 90)], 6), proptest::collection::vec(op(), 1..n)).prop_map(|(reward, ed, max, start, ops)| Case { reward, ed, max, start, ops }).boxed()
}
fn run(c: &Case, m: &mut Meter) -> Res {
	world(|w| *w = World { reward: c.reward, ed: c.ed, max: c.max, ..Default::default() });
	let mut l = Ledger::default();
	l.eds.insert(3, c.ed);
	let bal: Vec<(u64, AssetId, u128)> = (1u64..7).zip(c.start.iter()).filter(|x| *x.1 >= c.ed).map(|(w, x)| (w, 3, *x)).collect();
	for (w, a, x) in &bal { l.mint(w, *a, *x); }
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let mut sessions: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
	let mut out: Vec<u64> = vec![];
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			world(|w| w.seen.clear());
			let (mut ev, mut seen) = (vec![], vec![]);
			match o {
				Op::New { i, who } => {
					world(|w| w.next = who.clone());
					let fits = who.as_ref().map_or(true, |w| w.len() <= c.max as usize);
					let r = Rewards::new_session(*i);
					ensure_eq!(r, if fits { who.clone() } else { None }, "{}: collators of the session", what());
					if let (Some(w), true) = (who, fits) { sessions.insert(*i, w.clone()); }
					if !fits { m.label("too many"); }
					seen.push(Seen::New(*i));
				}
				Op::Start { i } => { Rewards::start_session(*i); seen.push(Seen::Start(*i)); }
				Op::End { i } => {
					Rewards::end_session(*i);
					seen.push(Seen::End(*i));
					for w in sessions.remove(i).unwrap_or_default() {
						if out.contains(&w) { m.label("excluded"); continue }
						if l.mint(&w, 3, c.reward).is_some() { ev.push(E::<Test>::CollatorRewarded { who: w, amount: c.reward, currency: 3 }); m.label("rewarded"); m.nontrivial(); } else { m.label("could not be rewarded"); }
					}
				}
				Op::Exclude(w) => { out = w.clone(); world(|x| x.out = w.clone()); }
				Op::Spend { who, x } => { let x = x.of(l.get(who, 3)); let r = <Tokens as MultiCurrency<u64>>::withdraw(3, who, x); if r.is_ok() { l.burn(who, 3, x).unwrap(); } }
			}
			ensure_eq!(world(|w| w.seen.clone()), seen, "{}: passed on", what());
			let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Rewards(e) => Some(e), _ => None }).collect();
			ensure_eq!(e, ev, "{}: events", what());
			same_ledger(&l, &[1, 2, 3, 4, 5, 6], &[3], |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for i in 0..5 { ensure_eq!(Rewards::collators(i).to_vec(), sessions.get(&i).cloned().unwrap_or_default(), "{}: collators of session {i}", what()); }
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; wrapped session manager by a table");
	c.check("rewards", "histories of sessions, exclusions and balances against an exact model; non-trivial: a collator was rewarded", 40_000, 800_000, || case(30), run);
	std::process::exit(c.finish());
}
