use frame_support::traits::{Contains, GetCallMetadata, PalletInfoAccess};
use frame_system::RawOrigin;
use kit::*;
use pallet_transaction_pause::{BoundedName, Event as E, PausedTransactionFilter, PausedTransactions};
use std::collections::BTreeSet;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Pause: pallet_transaction_pause, APalletWhoseNameIsExactlyFortyCharsLong1: long1, APalletWhoseNameIsExactlyFortyOneCharsLon: long2 });
system_config!(Test, u64, pallet_balances::AccountData<u128>);
tokens_config!(Test, OneEd, Nothing, ());
impl pallet_balances::Config for Test {
	type MaxLocks = ();
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<1>;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = ();
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
#[frame_support::pallet]
pub mod long1 {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn a_call_whose_name_is_exactly_forty_chars(_o: OriginFor<T>) -> DispatchResult { Ok(()) }
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::zero())]
		pub fn a_call_whose_name_is_exactly_forty_one_ch(_o: OriginFor<T>) -> DispatchResult { Ok(()) }
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_o: OriginFor<T>) -> DispatchResult { Ok(()) }
	}
}
#[frame_support::pallet]
pub mod long2 {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_o: OriginFor<T>) -> DispatchResult { Ok(()) }
	}
}
impl long1::Config for Test {}
impl long2::Config for Test {}
pub struct Who;
impl frame_support::traits::SortedMembers<u64> for Who { fn sorted_members() -> Vec<u64> { vec![1, 2] } }
impl pallet_transaction_pause::Config for Test { type RuntimeEvent = RuntimeEvent; type UpdateOrigin = frame_system::EnsureSignedBy<Who, u64>; type WeightInfo = (); }
fn calls() -> Vec<RuntimeCall> {
	vec![
		RuntimeCall::System(frame_system::Call::remark { remark: vec![] }),
		RuntimeCall::System(frame_system::Call::remark { remark: vec![7; 9] }),
		RuntimeCall::System(frame_system::Call::remark_with_event { remark: vec![] }),
		RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: 1, value: 10 }),
		RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive { dest: 2, value: 0 }),
		RuntimeCall::Tokens(orml_tokens::Call::transfer { dest: 1, currency_id: 2, amount: 10 }),
		RuntimeCall::Pause(pallet_transaction_pause::Call::pause_transaction { pallet_name: b"System".to_vec(), function_name: b"remark".to_vec() }),
		RuntimeCall::Pause(pallet_transaction_pause::Call::unpause_transaction { pallet_name: b"System".to_vec(), function_name: b"remark".to_vec() }),
		RuntimeCall::APalletWhoseNameIsExactlyFortyCharsLong1(long1::Call::a_call_whose_name_is_exactly_forty_chars {}),
		RuntimeCall::APalletWhoseNameIsExactlyFortyCharsLong1(long1::Call::a_call_whose_name_is_exactly_forty_one_ch {}),
		RuntimeCall::APalletWhoseNameIsExactlyFortyCharsLong1(long1::Call::remark {}),
		RuntimeCall::APalletWhoseNameIsExactlyFortyOneCharsLon(long2::Call::remark {}),
	]
}
fn names(c: &RuntimeCall) -> (Vec<u8>, Vec<u8>) { let m = c.get_call_metadata(); (m.pallet_name.as_bytes().to_vec(), m.function_name.as_bytes().to_vec()) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Name { Call(u8), Other(u8), Odd(Vec<u8>), Fill(u8), Cut(u8), Longer(u8), Case(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Pause { by: u64, p: Name, f: Name }, Unpause { by: u64, p: Name, f: Name }, Exact { on: bool, i: u8 } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op> }
fn name() -> BoxedStrategy<Name> { prop_oneof![10 => any::<u8>().prop_map(Name::Call), 1 => any::<u8>().prop_map(Name::Other), 1 => proptest::collection::vec(any::<u8>(), 0..45).prop_map(Name::Odd), 1 => (38u8..44).prop_map(Name::Fill), 1 => any::<u8>().prop_map(Name::Cut), 1 => any::<u8>().prop_map(Name::Longer), 1 => any::<u8>().prop_map(Name::Case)].boxed() }
fn op() -> BoxedStrategy<Op> {
	let by = || prop_oneof![4 => Just(1u64), 4 => Just(2), 1 => 0u64..5];
	prop_oneof![4 => (by(), name(), name()).prop_map(|(by, p, f)| Op::Pause { by, p, f }), 3 => (by(), name(), name()).prop_map(|(by, p, f)| Op::Unpause { by, p, f }), 6 => (prop::bool::weighted(0.6), any::<u8>()).prop_map(|(on, i)| Op::Exact { on, i })].boxed()
}
fn text(n: &Name, first: bool) -> Vec<u8> {
	let all = calls();
	let of = |i: u8, first: bool| { let x = names(&all[i as usize % all.len()]); if first { x.0 } else { x.1 } };
	match n {
		Name::Call(i) => of(*i, first),
		Name::Other(i) => of(*i, !first),
		Name::Odd(v) => v.clone(),
		Name::Fill(k) => vec![b'x'; *k as usize],
		Name::Cut(i) => { let mut v = of(*i, first); v.pop(); v }
		Name::Longer(i) => { let mut v = of(*i, first); v.push(b' '); v }
		Name::Case(i) => { let mut v = of(*i, first); v[0] ^= 32; v }
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	let mut paused: BTreeSet<(Vec<u8>, Vec<u8>)> = BTreeSet::new();
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let all = calls();
	let own = <Pause as PalletInfoAccess>::name().as_bytes().to_vec();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let (by, on, p, f) = match o {
				Op::Pause { by, p, f } => (*by, true, text(p, true), text(f, false)),
				Op::Unpause { by, p, f } => (*by, false, text(p, true), text(f, false)),
				Op::Exact { on, i } => { let (p, f) = names(&all[*i as usize % all.len()]); (1, *on, p, f) }
			};
			let sg = RuntimeOrigin::from(RawOrigin::Signed(by));
			let ok = (by == 1 || by == 2) && p.len() <= 40 && f.len() <= 40 && (!on || (std::str::from_utf8(&p).is_ok() && p != own));
			let got = atomic(what, || if on { Pause::pause_transaction(sg, p.clone(), f.clone()) } else { Pause::unpause_transaction(sg, p.clone(), f.clone()) })?;
			agree(what, &got, &ok.then_some(()))?;
			let mut ev = vec![];
			let (pallet_name_bytes, function_name_bytes) = (p.clone(), f.clone());
			if ok && on && paused.insert((p.clone(), f.clone())) { ev.push(E::<Test>::TransactionPaused { pallet_name_bytes, function_name_bytes }); m.label("paused"); }
			else if ok && !on && paused.remove(&(p, f)) { ev.push(E::<Test>::TransactionUnpaused { pallet_name_bytes, function_name_bytes }); m.label("unpaused"); }
			else { m.label(if ok { "no change" } else { "refused" }); }
			let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Pause(e) => Some(e), _ => None }).collect();
			ensure_eq!(e, ev, "{}: events", what());
			let stored: BTreeSet<(Vec<u8>, Vec<u8>)> = PausedTransactions::<Test>::iter().map(|((p, f), _)| (BoundedName::into(p), BoundedName::into(f))).collect();
			ensure_eq!(stored, paused, "{}: paused", what());
			for call in &all {
				let blocked = paused.contains(&names(call));
				ensure_eq!(PausedTransactionFilter::<Test>::contains(call), blocked, "{}: {call:?} blocked", what());
				if blocked { m.label("blocked call"); m.nontrivial(); }
			}
			for call in &all[6..8] { must!(!PausedTransactionFilter::<Test>::contains(call), "{}: {call:?} of this pallet blocked", what()); }
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.check("pausing", "histories of pausing and unpausing by allowed and other origins, names of calls and near misses, against a set; non-trivial: a call of the runtime was blocked", 30_000, 600_000, || proptest::collection::vec(op(), 1..30).prop_map(|ops| Case { ops }), run);
	std::process::exit(c.finish());
}
