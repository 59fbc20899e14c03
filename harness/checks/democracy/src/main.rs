use codec::Encode;
use frame_support::storage::with_transaction_unchecked;
use frame_support::traits::schedule::{v3, DispatchTime, Period};
use frame_support::traits::{Bounded, Currency, EnsureOrigin, Hooks, Imbalance, OnUnbalanced, QueryPreimage, ReservableCurrency, StorePreimage};
use frame_system::RawOrigin;
use kit::*;
use pallet_democracy::{AccountVote, Approved, Conviction, Delegations, Event as E, MetadataOwner as Mo, ReferendumInfo, Tally, Vote, VoteThreshold as Th, Voting};
use pallet_democracy::traits::DemocracyHooks;
use sp_core::H256;
use sp_runtime::traits::{BlakeTwo256, Hash};
use sp_runtime::TransactionOutcome;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Democracy: pallet_democracy });
type Bal = u128;
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Cfg { launch: u64, voting: u64, enact: u64, locking: u64, cooloff: u64, fast: u64, min: Bal, instant: bool, max_votes: u32, max_props: u32, max_deposits: u32, max_black: u32 }
#[derive(Clone, Debug, PartialEq)]
enum Act { Vote(u64, u32, AccountVote<Bal>), Unvote(u64, u32, Option<bool>), Slash(Bal), Schedule([u8; 32], u64, bool, u8, bool, Vec<u8>) }
#[derive(Default)]
struct Env { cfg: Cfg, acts: Vec<Act>, hook_err: bool, sched_err: bool, lock: Option<Bal> }
thread_local! { static ENV: RefCell<Env> = Default::default(); }
fn cfg<R>(f: impl FnOnce(&Cfg) -> R) -> R { ENV.with(|e| f(&e.borrow().cfg)) }
fn act(a: Act) { ENV.with(|e| e.borrow_mut().acts.push(a)) }
parameter_types! {
	pub Launch: u64 = cfg(|c| c.launch); pub VotingP: u64 = cfg(|c| c.voting); pub Enact: u64 = cfg(|c| c.enact); pub Locking: u64 = cfg(|c| c.locking);
	pub Cooloff: u64 = cfg(|c| c.cooloff); pub Fast: u64 = cfg(|c| c.fast); pub Min: u128 = cfg(|c| c.min); pub Instant: bool = cfg(|c| c.instant);
	pub MaxVotes: u32 = cfg(|c| c.max_votes); pub MaxProps: u32 = cfg(|c| c.max_props); pub MaxDeposits: u32 = cfg(|c| c.max_deposits); pub MaxBlack: u32 = cfg(|c| c.max_black);
}
system_config!(Test, u64, pallet_balances::AccountData<u128>);
impl pallet_balances::Config for Test {
	type MaxLocks = ConstU32<10>;
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = ConstU128<1>;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = ();
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
/// signed by an account of the range
pub struct By<const LO: u64, const HI: u64>;
impl<const LO: u64, const HI: u64> EnsureOrigin<RuntimeOrigin> for By<LO, HI> {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(w) if (LO..=HI).contains(&w) => Ok(w), _ => Err(o) } }
}
pub struct Sched;
impl v3::Named<u64, RuntimeCall, OriginCaller> for Sched {
	type Address = ();
	type Hasher = BlakeTwo256;
	fn schedule_named(id: v3::TaskName, when: DispatchTime<u64>, p: Option<Period<u64>>, prio: u8, o: OriginCaller, c: Bounded<RuntimeCall, BlakeTwo256>) -> Result<(), DispatchError> {
		if ENV.with(|e| e.borrow().sched_err) { return Err(DispatchError::Other("scheduler")) }
		let at = match when { DispatchTime::At(x) => x, DispatchTime::After(x) => System::block_number() + 1 + x };
		act(Act::Schedule(id, at, p.is_some(), prio, matches!(o, OriginCaller::system(RawOrigin::Root)), c.encode()));
		Ok(())
	}
	fn cancel_named(_: v3::TaskName) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn reschedule_named(_: v3::TaskName, _: DispatchTime<u64>) -> Result<(), DispatchError> { Err(DispatchError::Unavailable) }
	fn next_dispatch_time(_: v3::TaskName) -> Result<u64, DispatchError> { Err(DispatchError::Unavailable) }
}
pub struct Pre;
impl QueryPreimage for Pre {
	type H = BlakeTwo256;
	fn len(h: &H256) -> Option<u32> { (0..KNOWN).any(|i| meta(i) == *h).then_some(8) }
	fn fetch(_: &H256, _: Option<u32>) -> Result<Vec<u8>, DispatchError> { Err(DispatchError::Unavailable) }
	fn is_requested(_: &H256) -> bool { false }
	fn request(_: &H256) {}
	fn unrequest(_: &H256) {}
}
impl StorePreimage for Pre { const MAX_LENGTH: usize = 1024; fn note(b: std::borrow::Cow<[u8]>) -> Result<H256, DispatchError> { Ok(BlakeTwo256::hash(&b)) } }
pub struct Sl;
impl OnUnbalanced<pallet_balances::NegativeImbalance<Test>> for Sl { fn on_unbalanced(a: pallet_balances::NegativeImbalance<Test>) { act(Act::Slash(a.peek())) } }
pub struct Hk;
impl DemocracyHooks<u64, u128> for Hk {
	fn on_vote(w: &u64, r: u32, v: AccountVote<u128>) -> DispatchResult { act(Act::Vote(*w, r, v)); if ENV.with(|e| e.borrow().hook_err) { Err(DispatchError::Other("hook")) } else { Ok(()) } }
	fn on_remove_vote(w: &u64, r: u32, f: Option<bool>) { act(Act::Unvote(*w, r, f)) }
	fn remove_vote_locks_if_needed(_: &u64, _: u32) -> Option<u128> { ENV.with(|e| e.borrow().lock) }
}
impl pallet_democracy::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Currency = Balances;
	type EnactmentPeriod = Enact;
	type LaunchPeriod = Launch;
	type VotingPeriod = VotingP;
	type VoteLockingPeriod = Locking;
	type FastTrackVotingPeriod = Fast;
	type MinimumDeposit = Min;
	type MaxDeposits = MaxDeposits;
	type MaxBlacklisted = MaxBlack;
	type SubmitOrigin = By<1, 5>;
	type ExternalOrigin = By<20, 20>;
	type ExternalMajorityOrigin = By<21, 21>;
	type ExternalDefaultOrigin = By<22, 22>;
	type FastTrackOrigin = By<23, 23>;
	type InstantOrigin = By<24, 24>;
	type CancellationOrigin = By<25, 25>;
	type BlacklistOrigin = By<26, 26>;
	type CancelProposalOrigin = By<27, 27>;
	type VetoOrigin = By<28, 30>;
	type CooloffPeriod = Cooloff;
	type Slash = Sl;
	type InstantAllowed = Instant;
	type Scheduler = Sched;
	type MaxVotes = MaxVotes;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
	type MaxProposals = MaxProps;
	type Preimages = Pre;
	type DemocracyHooks = Hk;
}

const ACC: u64 = 6; // voters 1..=6, all but 6 may propose
const KNOWN: u8 = 3; // notes with a known preimage, of 4
fn meta(i: u8) -> H256 { H256::repeat_byte(0xa0 + i) }
type Prop = Bounded<RuntimeCall, BlakeTwo256>;
/// 3 and 4 are different forms of the same hash
fn prop(p: u8) -> Prop {
	match p {
		0..=2 => Bounded::Inline(RuntimeCall::System(frame_system::Call::remark { remark: vec![p] }).encode().try_into().unwrap()),
		3 => Bounded::Lookup { hash: H256::repeat_byte(3), len: 10 },
		_ => Bounded::Legacy { hash: H256::repeat_byte(3), dummy: Default::default() },
	}
}
fn conv(c: u8) -> Conviction { Conviction::try_from(c).unwrap() }
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum V { Std(bool, u8, A), Split(A, A) }
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum O { External, Proposal(u8), Referendum(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Next(u8, bool),
	Propose { by: u64, p: u8, x: A },
	Second { by: u64, i: u8 },
	Vote { by: u64, r: u8, v: V, refuse: bool },
	RemoveVote { by: u64, of: Option<u64>, r: u8, keep: Option<A> },
	Delegate { by: u64, to: u64, c: u8, x: A },
	Undelegate { by: u64 },
	Unlock { by: u64, of: u64 },
	External { by: Option<u64>, kind: u8, p: u8 },
	FastTrack { by: u64, p: Option<u8>, period: u64, delay: u64 },
	Veto { by: u64, p: Option<u8> },
	Cancel { root: bool, emergency: bool, by: u64, r: u8 },
	Blacklist { by: u64, p: u8, r: Option<u8> },
	CancelProposal { by: u64, i: u8 },
	Clear { root: bool },
	Meta { by: u64, root: bool, o: O, h: Option<u8> },
	Start { p: u8, th: u8, delay: u64 },
	Pay { from: u64, to: u64, x: A },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, bal: Vec<Bal>, ops: Vec<Op> }
fn acc() -> BoxedStrategy<u64> { (1..=ACC).boxed() }
/// mostly the right account
fn who(right: u64) -> BoxedStrategy<u64> { prop_oneof![12 => Just(right), 1 => 1u64..=30].boxed() }
fn part() -> BoxedStrategy<A> { prop_oneof![8 => (0u32..=1_000_000).prop_map(A::Part), 2 => (-2i16..=2).prop_map(A::Off), 2 => (0u128..25).prop_map(A::Abs), 1 => amt()].boxed() }
fn op(lifecycle: bool) -> BoxedStrategy<Op> {
	let v = || prop_oneof![6 => (any::<bool>(), 0u8..7, part()).prop_map(|(a, c, x)| V::Std(a, c, x)), 2 => (part(), part()).prop_map(|(a, b)| V::Split(a, b))];
	let p = || 0u8..5;
	let (l, v_) = if lifecycle { (3, 2) } else { (1, 5) };
	prop_oneof![
		12 => (prop_oneof![6 => 1u8..4, 1 => 4u8..20], prop::bool::weighted(0.05)).prop_map(|(n, f)| Op::Next(n, f)),
		2 * l => (prop_oneof![8 => 1u64..=5, 1 => Just(6u64)], p(), prop_oneof![4 => (0i16..30).prop_map(A::Off), 1 => (-2i16..0).prop_map(A::Off), 1 => mag(0, 1 << 90).prop_map(A::Abs)]).prop_map(|(by, p, x)| Op::Propose { by, p, x }),
		l => (acc(), 0u8..5).prop_map(|(by, i)| Op::Second { by, i }),
		6 * v_ => (acc(), prop_oneof![6 => 0u8..2, 2 => 0u8..6], v(), prop::bool::weighted(0.04)).prop_map(|(by, r, v, refuse)| Op::Vote { by, r, v, refuse }),
		4 * v_ => (acc(), prop::option::weighted(0.3, acc()), prop_oneof![6 => 0u8..3, 1 => 0u8..6], prop::option::weighted(0.4, part())).prop_map(|(by, of, r, keep)| Op::RemoveVote { by, of, r, keep }),
		v_ => (acc(), acc(), 0u8..7, part()).prop_map(|(by, to, c, x)| Op::Delegate { by, to, c, x }),
		v_ => acc().prop_map(|by| Op::Undelegate { by }),
		v_ => (prop_oneof![15 => acc(), 1 => Just(0u64).boxed()], acc()).prop_map(|(by, of)| Op::Unlock { by, of }),
		l => (prop::option::weighted(0.1, 1u64..=30), 0u8..3, p()).prop_map(|(by, kind, p)| Op::External { by, kind, p }),
		l => (prop_oneof![4 => Just(23u64), 4 => Just(24u64), 1 => 1u64..=30], prop::option::weighted(0.1, p()), 0u64..8, prop_oneof![4 => 0u64..6, 1 => Just(u64::MAX)]).prop_map(|(by, p, period, delay)| Op::FastTrack { by, p, period, delay }),
		l => (prop_oneof![8 => 28u64..=30, 1 => 1u64..=30], prop::option::weighted(0.1, p())).prop_map(|(by, p)| Op::Veto { by, p }),
		1 => (prop::bool::weighted(0.9), any::<bool>(), who(25), 0u8..6).prop_map(|(root, emergency, by, r)| Op::Cancel { root, emergency, by, r }),
		1 => (who(26), p(), prop::option::of(0u8..4)).prop_map(|(by, p, r)| Op::Blacklist { by, p, r }),
		1 => (who(27), 0u8..5).prop_map(|(by, i)| Op::CancelProposal { by, i }),
		1 => prop::bool::weighted(0.5).prop_map(|root| Op::Clear { root }),
		2 * l => (prop_oneof![3 => 1u64..=5, 3 => 20u64..=22, 1 => 1u64..=30], prop::bool::weighted(0.3), prop_oneof![2 => Just(O::External), 3 => (0u8..4).prop_map(O::Proposal), 2 => (0u8..4).prop_map(O::Referendum)], prop::option::weighted(0.8, 0u8..4)).prop_map(|(by, root, o, h)| Op::Meta { by, root, o, h }),
		(7 - 2 * l) => (p(), 0u8..3, 0u64..4).prop_map(|(p, th, delay)| Op::Start { p, th, delay }),
		1 => (acc(), acc(), amt()).prop_map(|(from, to, x)| Op::Pay { from, to, x }),
	].boxed()
}
fn case(lifecycle: bool, n: usize) -> BoxedStrategy<Case> {
	let c = ((1u64..6, 1u64..7, 0u64..5, prop_oneof![3 => 0u64..5, 1 => Just(u64::MAX / 4)]), (0u64..12, 1u64..6, 0u128..20, any::<bool>()), (1u32..5, 1u32..5, 1u32..4, 1u32..3)).prop_map(|((launch, voting, enact, locking), (cooloff, fast, min, instant), (max_votes, max_props, max_deposits, max_black))| Cfg { launch, voting, enact, locking, cooloff, fast, min, instant, max_votes, max_props, max_deposits, max_black });
	let b = prop_oneof![4 => 50u128..2000, 2 => mag(50, 1 << 100), 1 => 1u128..50];
	(c, proptest::collection::vec(b, ACC as usize), proptest::collection::vec(op(lifecycle), 1..n)).prop_map(|(cfg, bal, ops)| Case { cfg, bal, ops }).boxed()
}

// ------------------------------------------------------------------ model
type Hx = H256;
#[derive(Clone, Debug, PartialEq)]
enum Ref { Open { end: u64, p: u8, th: Th, delay: u64 }, Done { end: u64, approved: bool } }
#[derive(Clone, Debug, Default)]
struct Voter { votes: BTreeMap<u32, AccountVote<Bal>>, del: Option<(u64, Conviction, Bal)>, prior: (u64, Bal), lock: Bal }
#[derive(Clone, Debug, Default)]
struct M {
	now: u64,
	free: BTreeMap<u64, Bal>,
	reserved: BTreeMap<u64, Bal>,
	issued: Bal,
	v: BTreeMap<u64, Voter>,
	props: Vec<(u32, u8, u64)>,
	deposits: BTreeMap<u32, (Vec<u64>, Bal)>,
	count: u32,
	refs: BTreeMap<u32, Ref>,
	ref_count: u32,
	lowest: u32,
	ext: Option<(u8, Th)>,
	last_ext: bool,
	black: BTreeMap<Hx, (u64, Vec<u64>)>,
	cancelled: BTreeMap<Hx, bool>,
	meta: Vec<(Mo, H256)>,
	ev: Vec<E<Test>>,
	acts: Vec<Act>,
}
fn lock_periods(c: Conviction) -> u64 { let i: u8 = c.into(); if i == 0 { 0 } else { 1 << (i - 1) } }
fn votes(c: Conviction, x: Bal) -> Bal { let i: u8 = c.into(); if i == 0 { x / 10 } else { x * i as u128 } }
fn weight(v: &AccountVote<Bal>) -> Bal { match v { AccountVote::Standard { balance, .. } => *balance, AccountVote::Split { aye, nay } => aye + nay } }
fn isqrt(x: u128) -> u128 { let (mut lo, mut hi) = (0u128, 1u128 << 64); while lo + 1 < hi { let m = (lo + hi) / 2; if m.checked_mul(m).map_or(false, |y| y <= x) { lo = m } else { hi = m } } lo }
fn passes(th: Th, ayes: Bal, nays: Bal, turnout: Bal, all: Bal) -> bool {
	let (t, e) = (isqrt(turnout), isqrt(all));
	if t == 0 { return false }
	match th {
		// n / sqrt(t) < a / sqrt(e)
		Th::SuperMajorityApprove => b(nays) * b(e) < b(ayes) * b(t),
		// n / sqrt(e) < a / sqrt(t)
		Th::SuperMajorityAgainst => b(nays) * b(t) < b(ayes) * b(e),
		Th::SimpleMajority => ayes > nays,
	}
}
impl M {
	fn till(&self, periods: u64, from: u64) -> u64 { from.saturating_add(cfg(|c| c.locking).saturating_mul(periods)) }
	fn prior(&mut self, w: u64, until: u64, x: Bal) { let p = &mut self.v.get_mut(&w).unwrap().prior; p.0 = p.0.max(until); p.1 = p.1.max(x); }
	/// everything delegated to the account
	fn delegated(&self, to: u64) -> (Bal, Bal) { self.v.values().filter_map(|v| v.del).filter(|d| d.0 == to).fold((0, 0), |s, d| (s.0 + votes(d.1, d.2), s.1 + d.2)) }
	/// ayes, nays, turnout from the votes that stand
	fn tally(&self, r: u32) -> (Bal, Bal, Bal) {
		let mut t = (0, 0, 0);
		for (w, v) in &self.v {
			match v.votes.get(&r) {
				Some(AccountVote::Standard { vote, balance }) => {
					let d = self.delegated(*w);
					let n = votes(vote.conviction, *balance) + d.0;
					if vote.aye { t.0 += n } else { t.1 += n }
					t.2 += balance + d.1;
				}
				Some(AccountVote::Split { aye, nay }) => { t.0 += aye / 10; t.1 += nay / 10; t.2 += aye + nay; }
				None => {}
			}
		}
		t
	}
	fn open(&self, r: u32) -> Option<u8> { match self.refs.get(&r) { Some(Ref::Open { p, .. }) => Some(*p), _ => None } }
	fn take_meta(&mut self, o: &Mo) -> Option<H256> { let i = self.meta.iter().position(|x| x.0 == *o)?; Some(self.meta.remove(i).1) }
	fn clear_meta(&mut self, o: Mo) { if let Some(hash) = self.take_meta(&o) { self.ev.push(E::MetadataCleared { owner: o, hash }); } }
	fn move_meta(&mut self, o: Mo, n: Mo) { if let Some(hash) = self.take_meta(&o) { self.take_meta(&n); self.meta.push((n.clone(), hash)); self.ev.push(E::MetadataTransferred { prev_owner: o, owner: n, hash }); } }
	fn start(&mut self, end: u64, p: u8, th: Th, delay: u64) -> u32 {
		let r = self.ref_count;
		self.ref_count += 1;
		self.refs.insert(r, Ref::Open { end, p, th, delay });
		self.ev.push(E::Started { ref_index: r, threshold: th });
		r
	}
	fn cancel(&mut self, r: u32) { self.ev.push(E::Cancelled { ref_index: r }); self.refs.remove(&r); self.clear_meta(Mo::Referendum(r)); }
	fn slash(&mut self, i: u32) {
		if let Some((w, x)) = self.deposits.remove(&i) { for w in w {
			let r = self.reserved.get_mut(&w).unwrap();
			let s = x.min(*r);
			*r -= s;
			self.issued -= s;
			self.acts.push(Act::Slash(s));
		} }
	}
	fn barred(&self, p: u8) -> bool { self.black.get(&prop(p).hash()).map_or(false, |x| self.now < x.0) }
	fn launch_external(&mut self) -> bool {
		let Some((p, th)) = self.ext.take() else { return false };
		self.last_ext = true;
		self.ev.push(E::ExternalTabled);
		let r = self.start(self.now + cfg(|c| c.voting), p, th, cfg(|c| c.enact));
		self.move_meta(Mo::External, Mo::Referendum(r));
		true
	}
	fn launch_public(&mut self) -> bool {
		let back = |s: &M, i: u32| { let d = &s.deposits[&i]; d.1 * d.0.len() as u128 };
		let mut best: Option<usize> = None;
		for k in 0..self.props.len() { if best.map_or(true, |j| back(self, self.props[k].0) >= back(self, self.props[j].0)) { best = Some(k); } }
		let Some(k) = best else { return false };
		let (i, p, _) = self.props.swap_remove(k);
		let (w, x) = self.deposits.remove(&i).unwrap();
		for w in w { *self.reserved.get_mut(&w).unwrap() -= x; *self.free.get_mut(&w).unwrap() += x; }
		self.ev.push(E::Tabled { proposal_index: i, deposit: x });
		let r = self.start(self.now + cfg(|c| c.voting), p, Th::SuperMajorityApprove, cfg(|c| c.enact));
		self.move_meta(Mo::Proposal(i), Mo::Referendum(r));
		true
	}
	fn block(&mut self, sched_err: bool, m: &mut Meter) {
		self.now += 1;
		let known = self.ref_count;
		if self.now % cfg(|c| c.launch) == 0 {
			let was = std::mem::replace(&mut self.last_ext, false);
			if was { if !self.launch_public() { self.launch_external(); } } else if !self.launch_external() { self.launch_public(); }
		}
		for (r, s) in self.refs.clone() {
			let Ref::Open { end, p, th, delay } = s else { continue };
			if end != self.now || r >= known { continue }
			let t = self.tally(r);
			let approved = passes(th, t.0, t.1, t.2, self.issued);
			if approved {
				m.label("passed");
				self.ev.push(E::Passed { ref_index: r });
				let mut id = [0u8; 32];
				let name = (*b"democrac", r).encode();
				id[..name.len()].copy_from_slice(&name);
				if !sched_err { self.acts.push(Act::Schedule(id, self.now.saturating_add(delay.max(1)), false, 63, true, prop(p).encode())); }
			} else { m.label("not passed"); self.ev.push(E::NotPassed { ref_index: r }); }
			self.refs.insert(r, Ref::Done { end: self.now, approved });
		}
		while self.lowest < known && !matches!(self.refs.get(&self.lowest), Some(Ref::Open { .. })) { self.lowest += 1; }
	}
}
fn same_events(what: &dyn Fn() -> String, want: &mut Vec<E<Test>>) -> Res {
	let got: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Democracy(e) => Some(e), _ => None }).collect();
	let sort = |v: &[E<Test>]| { let mut s: Vec<String> = v.iter().map(|e| format!("{e:?}")).collect(); s.sort(); s };
	ensure_eq!(sort(&got), sort(&std::mem::take(want)), "{}: events", what());
	Ok(())
}
fn same(s: &M, what: &dyn Fn() -> String) -> Res {
	for w in 1..=ACC {
		ensure_eq!(Balances::free_balance(w), s.free[&w], "{}: free balance of {w}", what());
		ensure_eq!(Balances::reserved_balance(w), s.reserved[&w], "{}: deposits of {w}", what());
		let l: Vec<_> = Balances::locks(w).into_iter().map(|l| (l.id, l.amount, l.reasons)).collect();
		let v = &s.v[&w];
		let want = if v.lock == 0 { vec![] } else { vec![(*b"democrac", v.lock, pallet_balances::Reasons::All)] };
		ensure_eq!(l, want, "{}: lock of {w}", what());
		// a standing vote or delegation is always backed by the lock
		let need = v.votes.values().map(weight).chain(v.del.map(|d| d.2)).max().unwrap_or(0);
		must!(v.lock >= need, "{}: lock of {w} {} below a standing vote {need}", what(), v.lock);
		let (dv, dc) = s.delegated(w);
		match pallet_democracy::VotingOf::<Test>::get(w) {
			Voting::Direct { votes, delegations, prior } => {
				must!(v.del.is_none(), "{}: {w} votes directly, must delegate", what());
				ensure_eq!(votes.into_inner(), v.votes.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>(), "{}: votes of {w}", what());
				ensure_eq!(delegations, Delegations { votes: dv, capital: dc }, "{}: delegated to {w}", what());
				ensure_eq!(prior.encode(), v.prior.encode(), "{}: earlier lock of {w} {prior:?} expected {:?}", what(), v.prior);
			}
			Voting::Delegating { balance, target, conviction, delegations, prior } => {
				ensure_eq!(Some((target, conviction, balance)), v.del, "{}: delegation of {w}", what());
				ensure_eq!(delegations, Delegations { votes: dv, capital: dc }, "{}: delegated to {w}", what());
				ensure_eq!(prior.encode(), v.prior.encode(), "{}: earlier lock of {w} {prior:?} expected {:?}", what(), v.prior);
			}
		}
	}
	ensure_eq!(Balances::total_issuance(), s.issued, "{}: issuance", what());
	let props: Vec<_> = Democracy::public_props().into_inner();
	ensure_eq!(props, s.props.iter().map(|x| (x.0, prop(x.1), x.2)).collect::<Vec<_>>(), "{}: proposals", what());
	ensure_eq!(Democracy::public_prop_count(), s.count, "{}: number of proposals made", what());
	for i in 0..s.count + 1 {
		ensure_eq!(Democracy::deposit_of(i).map(|d| (d.0.into_inner(), d.1)), s.deposits.get(&i).cloned(), "{}: deposits of proposal {i}", what());
		ensure_eq!(Democracy::backing_for(i), s.deposits.get(&i).map(|d| d.1 * d.0.len() as u128), "{}: backing of proposal {i}", what());
	}
	ensure_eq!(Democracy::referendum_count(), s.ref_count, "{}: number of referenda", what());
	ensure_eq!(Democracy::lowest_unbaked(), s.lowest, "{}: lowest open referendum", what());
	for r in 0..s.ref_count + 1 {
		let want = s.refs.get(&r).map(|x| match x {
			Ref::Done { end, approved } => ReferendumInfo::Finished { end: *end, approved: *approved },
			Ref::Open { end, p, th, delay } => { let t = s.tally(r); ReferendumInfo::Ongoing(pallet_democracy::ReferendumStatus { end: *end, proposal: prop(*p), threshold: *th, delay: *delay, tally: Tally { ayes: t.0, nays: t.1, turnout: t.2 } }) }
		});
		ensure_eq!(Democracy::referendum_info(r), want, "{}: referendum {r}", what());
	}
	ensure_eq!(pallet_democracy::NextExternal::<Test>::get(), s.ext.map(|x| (prop(x.0), x.1)), "{}: external proposal", what());
	ensure_eq!(pallet_democracy::LastTabledWasExternal::<Test>::get(), s.last_ext, "{}: last tabled was external", what());
	for p in 0..5 {
		let h = prop(p).hash();
		ensure_eq!(pallet_democracy::Blacklist::<Test>::get(h).map(|x| (x.0, x.1.into_inner())), s.black.get(&h).cloned(), "{}: blacklist entry of proposal {p}", what());
		ensure_eq!(pallet_democracy::Cancellations::<Test>::get(h), s.cancelled.contains_key(&h), "{}: cancellation of {p}", what());
	}
	let mut a: Vec<_> = pallet_democracy::MetadataOf::<Test>::iter().map(|x| format!("{x:?}")).collect();
	let mut e: Vec<_> = s.meta.iter().map(|x| format!("{x:?}")).collect();
	a.sort();
	e.sort();
	ensure_eq!(a, e, "{}: notes attached", what());
	Ok(())
}
fn run(c: &Case, m: &mut Meter) -> Res {
	ENV.with(|e| *e.borrow_mut() = Env { cfg: c.cfg.clone(), ..Default::default() });
	let mut s = M { now: 1, ..Default::default() };
	// an account that takes no part keeps the issuance positive
	let mut bal: Vec<(u64, Bal)> = vec![(100, 1)];
	s.issued = 1;
	for (i, x) in c.bal.iter().enumerate() { let w = i as u64 + 1; s.free.insert(w, *x); s.reserved.insert(w, 0); s.v.insert(w, Voter::default()); s.issued += x; bal.push((w, *x)); }
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	pallet_democracy::GenesisConfig::<Test>::default().assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			ENV.with(|e| { let mut e = e.borrow_mut(); e.acts.clear(); e.hook_err = false; e.sched_err = false; e.lock = None; });
			let now = s.now;
			let signed = |w: u64| -> RuntimeOrigin { RawOrigin::Signed(w).into() };
			let rx = |s: &M, r: u8| -> u32 { if r as u32 >= 5 { s.ref_count } else { s.ref_count.saturating_sub(1 + r as u32) } };
			let px = |s: &M, i: u8| -> u32 { match s.props.get(i as usize) { Some(x) => x.0, None => (s.count + 1).saturating_sub(i as u32) } };
			let mut n = s.clone();
			let mut want: Option<()> = Some(());
			let got: Result<(), DispatchError> = match o {
				Op::Next(k, bad) => {
					for _ in 0..*k {
						ENV.with(|e| e.borrow_mut().sched_err = *bad);
						n.block(*bad, m);
						System::set_block_number(n.now);
						<Democracy as Hooks<u64>>::on_initialize(n.now);
						same_events(&what, &mut n.ev)?;
						ensure_eq!(ENV.with(|e| std::mem::take(&mut e.borrow_mut().acts)), std::mem::take(&mut n.acts), "{}: scheduled calls", what());
						same(&n, &what)?;
					}
					Ok(())
				}
				Op::Propose { by, p, x } => {
					let x = x.of(c.cfg.min);
					let can = s.free.contains_key(by) && with_transaction_unchecked(|| TransactionOutcome::Rollback(<Balances as ReservableCurrency<u64>>::reserve(by, x).is_ok()));
					if *by > 5 || x < c.cfg.min || s.props.len() as u32 >= c.cfg.max_props || s.barred(*p) || !can { want = None; }
					if want.is_some() {
						*n.free.get_mut(by).unwrap() -= x;
						*n.reserved.get_mut(by).unwrap() += x;
						n.deposits.insert(s.count, (vec![*by], x));
						n.props.push((s.count, *p, *by));
						n.count += 1;
						n.ev.push(E::Proposed { proposal_index: s.count, deposit: x });
					} else if s.barred(*p) { m.label("barred proposal"); }
					atomic(what, || Democracy::propose(signed(*by), prop(*p), x))?
				}
				Op::Second { by, i } => {
					let i = px(&s, *i);
					want = s.deposits.get(&i).cloned().and_then(|(w, x)| {
						let can = with_transaction_unchecked(|| TransactionOutcome::Rollback(<Balances as ReservableCurrency<u64>>::reserve(by, x).is_ok()));
						if w.len() as u32 >= c.cfg.max_deposits || !can { return None }
						*n.free.get_mut(by).unwrap() -= x;
						*n.reserved.get_mut(by).unwrap() += x;
						n.deposits.get_mut(&i).unwrap().0.push(*by);
						n.ev.push(E::Seconded { seconder: *by, prop_index: i });
						m.label("seconded");
						Some(())
					});
					atomic(what, || Democracy::second(signed(*by), i))?
				}
				Op::Vote { by, r, v, refuse } => {
					let r = rx(&s, *r);
					let free = s.free[by];
					let v = match v { V::Std(aye, k, x) => AccountVote::Standard { vote: Vote { aye: *aye, conviction: conv(*k) }, balance: x.of(free).min(1 << 110) }, V::Split(x, y) => { let x = x.of(free).min(1 << 110); AccountVote::Split { aye: x, nay: y.of(free.saturating_sub(x)).min(1 << 110) } } };
					let me = &s.v[by];
					let ok = s.open(r).is_some() && weight(&v) <= free && me.del.is_none() && (me.votes.contains_key(&r) || (me.votes.len() as u32) < c.cfg.max_votes) && !refuse;
					want = ok.then(|| {
						if me.votes.contains_key(&r) { m.label("vote changed"); }
						if s.delegated(*by).1 > 0 { m.label("vote with delegations"); }
						m.nontrivial();
						let v_ = n.v.get_mut(by).unwrap();
						v_.votes.insert(r, v);
						v_.lock = v_.lock.max(weight(&v));
						n.ev.push(E::Voted { voter: *by, ref_index: r, vote: v });
						n.acts.push(Act::Vote(*by, r, v));
					});
					ENV.with(|e| e.borrow_mut().hook_err = *refuse);
					atomic(what, || Democracy::vote(signed(*by), r, v))?
				}
				Op::RemoveVote { by, of, r, keep } => {
					let r = rx(&s, *r);
					let w = of.unwrap_or(*by);
					let own = w == *by;
					let me = &s.v[&w];
					let keep = keep.map(|k| k.of(s.free[&w]));
					if me.del.is_none() {
						want = me.votes.get(&r).and_then(|v| {
							let fin = match s.refs.get(&r) {
								Some(Ref::Open { .. }) => { if !own { return None } Some(false) }
								Some(Ref::Done { end, approved }) => {
									if let AccountVote::Standard { vote, balance } = v {
										let till = s.till(lock_periods(vote.conviction), *end);
										let hold = if vote.aye == *approved { Some(*balance) } else { keep };
										if let Some(x) = hold { if now < till {
											if !own { return None }
											n.prior(w, till, x);
											m.label(if vote.aye == *approved { "winner removes while locked" } else { "loser locked by the hook" });
										} }
									}
									Some(true)
								}
								None => { m.label("vote on a cancelled referendum removed"); None }
							};
							n.v.get_mut(&w).unwrap().votes.remove(&r);
							n.acts.push(Act::Unvote(w, r, fin));
							m.nontrivial();
							if !own { m.label("vote removed by another"); }
							Some(())
						});
					}
					ENV.with(|e| e.borrow_mut().lock = keep);
					atomic(what, || match of { Some(t) => Democracy::remove_other_vote(signed(*by), *t, r), None => Democracy::remove_vote(signed(*by), r) })?
				}
				Op::Delegate { by, to, c: k, x } => {
					let x = x.of(s.free[by]).min(1 << 110);
					let k = conv(*k);
					let me = &s.v[by];
					if by == to || x > s.free[by] || !me.votes.is_empty() { want = None; }
					if want.is_some() {
						if let Some((_, old, y)) = me.del { let till = s.till(lock_periods(old), now); n.prior(*by, till, y); m.label("delegation moved"); }
						let v = n.v.get_mut(by).unwrap();
						v.del = Some((*to, k, x));
						v.lock = v.lock.max(x);
						n.ev.push(E::Delegated { who: *by, target: *to });
						if !s.v[to].votes.is_empty() { m.label("delegation to a voter"); m.nontrivial(); }
					}
					atomic(what, || Democracy::delegate(signed(*by), *to, k, x).map(|_| ()).map_err(|e| e.error))?
				}
				Op::Undelegate { by } => {
					want = s.v[by].del.map(|(_, k, x)| {
						let till = s.till(lock_periods(k), now);
						n.prior(*by, till, x);
						n.v.get_mut(by).unwrap().del = None;
						n.ev.push(E::Undelegated { account: *by });
						m.label("undelegated");
					});
					atomic(what, || Democracy::undelegate(signed(*by)).map(|_| ()).map_err(|e| e.error))?
				}
				Op::Unlock { by: 0, of } => { want = None; atomic(what, || Democracy::unlock(frame_system::RawOrigin::None.into(), *of))? }
				Op::Unlock { by, of } => {
					let v = n.v.get_mut(of).unwrap();
					if now >= v.prior.0 { v.prior = (0, 0); }
					let need = v.votes.values().map(weight).chain(v.del.map(|d| d.2)).max().unwrap_or(0).max(v.prior.1);
					if need < v.lock { m.label("lock reduced"); }
					v.lock = need;
					atomic(what, || Democracy::unlock(signed(*by), *of))?
				}
				Op::External { by, kind, p } => {
					let by = by.unwrap_or(20 + *kind as u64);
					let th = [Th::SuperMajorityApprove, Th::SimpleMajority, Th::SuperMajorityAgainst][*kind as usize];
					if by != 20 + *kind as u64 || (*kind == 0 && (s.ext.is_some() || s.barred(*p))) { want = None; } else { n.ext = Some((*p, th)); m.label("external proposal"); }
					atomic(what, || match kind { 0 => Democracy::external_propose(signed(by), prop(*p)), 1 => Democracy::external_propose_majority(signed(by), prop(*p)), _ => Democracy::external_propose_default(signed(by), prop(*p)) })?
				}
				Op::FastTrack { by, p, period, delay } => {
					let p = p.or(s.ext.map(|x| x.0)).unwrap_or(0);
					let h = prop(p).hash();
					let right = if *by == 23 { *period >= c.cfg.fast } else { *by == 24 && c.cfg.instant };
					want = s.ext.filter(|x| right && *period > 0 && x.1 != Th::SuperMajorityApprove && prop(x.0).hash() == h).map(|x| {
						n.ext = None;
						let r = n.start(now + period, x.0, x.1, *delay);
						n.move_meta(Mo::External, Mo::Referendum(r));
						m.label("fast-tracked");
						m.nontrivial();
					});
					atomic(what, || Democracy::fast_track(signed(*by), h, *period, *delay))?
				}
				Op::Veto { by, p } => {
					let p = p.or(s.ext.map(|x| x.0)).unwrap_or(0);
					let h = prop(p).hash();
					let mut l = s.black.get(&h).map(|x| x.1.clone()).unwrap_or_default();
					if !(28..=30).contains(by) || s.ext.map(|x| prop(x.0).hash()) != Some(h) || l.contains(by) || l.len() as u32 >= c.cfg.max_black { want = None; }
					if want.is_some() {
						l.push(*by);
						l.sort();
						n.black.insert(h, (now + c.cfg.cooloff, l));
						n.ext = None;
						n.ev.push(E::Vetoed { who: *by, proposal_hash: h, until: now + c.cfg.cooloff });
						n.clear_meta(Mo::External);
						m.label("vetoed");
					}
					atomic(what, || Democracy::veto_external(signed(*by), h))?
				}
				Op::Cancel { root, emergency, by, r } => {
					let r = rx(&s, *r);
					if *emergency {
						let h = s.open(r).map(|p| prop(p).hash());
						if *by != 25 || h.map_or(true, |h| s.cancelled.contains_key(&h)) { want = None; } else { n.cancelled.insert(h.unwrap(), true); n.cancel(r); m.label("emergency cancel"); }
						atomic(what, || Democracy::emergency_cancel(signed(*by), r))?
					} else {
						if !root { want = None; } else { n.cancel(r); m.label("cancelled"); }
						atomic(what, || Democracy::cancel_referendum(if *root { RawOrigin::Root.into() } else { signed(*by) }, r))?
					}
				}
				Op::Blacklist { by, p, r } => {
					let h = prop(*p).hash();
					let r = r.map(|r| rx(&s, r));
					if *by != 26 { want = None; } else {
						n.black.insert(h, (u64::MAX, vec![]));
						if let Some(k) = n.props.iter().position(|x| prop(x.1).hash() == h) {
							let (i, ..) = n.props.remove(k);
							n.slash(i);
							n.clear_meta(Mo::Proposal(i));
							m.label("queued proposal blacklisted");
						}
						if n.ext.map(|x| prop(x.0).hash()) == Some(h) { n.ext = None; n.clear_meta(Mo::External); m.label("external proposal blacklisted"); }
						if let Some(r) = r { if n.open(r).map(|p| prop(p).hash()) == Some(h) { n.cancel(r); m.label("referendum blacklisted"); } }
						n.ev.push(E::Blacklisted { proposal_hash: h });
					}
					atomic(what, || Democracy::blacklist(signed(*by), h, r))?
				}
				Op::CancelProposal { by, i } => {
					let i = px(&s, *i);
					if *by != 27 { want = None; } else {
						n.props.retain(|x| x.0 != i);
						n.slash(i);
						n.ev.push(E::ProposalCanceled { prop_index: i });
						n.clear_meta(Mo::Proposal(i));
					}
					atomic(what, || Democracy::cancel_proposal(signed(*by), i))?
				}
				Op::Clear { root } => {
					if !root { want = None; } else { n.props.clear(); }
					atomic(what, || Democracy::clear_public_proposals(if *root { RawOrigin::Root.into() } else { signed(1) }))?
				}
				Op::Meta { by, root, o, h } => {
					let owner = match o { O::External => Mo::External, O::Proposal(i) => Mo::Proposal(px(&s, *i)), O::Referendum(r) => Mo::Referendum(rx(&s, *r)) };
					let right = match &owner {
						Mo::External => !root && s.ext.map_or(false, |x| *by == match x.1 { Th::SuperMajorityApprove => 20, Th::SimpleMajority => 21, Th::SuperMajorityAgainst => 22 }),
						Mo::Proposal(i) => !root && s.props.iter().any(|x| x.0 == *i && x.2 == *by),
						Mo::Referendum(r) => *root || (h.is_none() && s.open(*r).is_none()),
					};
					if !right || h.map_or(false, |h| h >= KNOWN) { want = None; } else if let Some(h) = h {
						n.take_meta(&owner);
						n.meta.push((owner.clone(), meta(*h)));
						n.ev.push(E::MetadataSet { owner: owner.clone(), hash: meta(*h) });
						m.label("note attached");
					} else { n.clear_meta(owner.clone()); }
					atomic(what, || Democracy::set_metadata(if *root { RawOrigin::Root.into() } else { signed(*by) }, owner, h.map(meta)))?
				}
				Op::Start { p, th, delay } => {
					let th = [Th::SuperMajorityApprove, Th::SimpleMajority, Th::SuperMajorityAgainst][*th as usize];
					let r = n.start(now + c.cfg.voting, *p, th, *delay);
					ensure_eq!(Democracy::internal_start_referendum(prop(*p), th, *delay), r, "{}: index", what());
					Ok(())
				}
				Op::Pay { from, to, x } => {
					let x = x.of(s.free[from]);
					if Balances::transfer_allow_death(signed(*from), *to, x).is_ok() {
						for w in [from, to] { n.free.insert(*w, Balances::free_balance(*w)); }
						n.issued = Balances::total_issuance();
						must!(n.free[from] >= n.v[from].lock || from == to || n.free[from] + n.reserved[from] >= n.v[from].lock, "{}: locked funds moved", what());
						Ok(())
					} else { want = None; Err(DispatchError::Other("")) }
				}
			};
			agree(what, &got, &want)?;
			if want.is_some() {
				if !matches!(o, Op::Next(..)) {
					ensure_eq!(ENV.with(|e| std::mem::take(&mut e.borrow_mut().acts)), std::mem::take(&mut n.acts), "{}: hooks, slashes, scheduled calls", what());
					same_events(&what, &mut n.ev)?;
				}
				s = n;
			}
			same(&s, &what)?;
		}
		Ok(())
	})
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Near { th: u8, ayes: u128, nays: u128, turnout: u128, all: u128, d: i8 }
fn near() -> BoxedStrategy<Near> { (0u8..3, mag(0, u128::MAX), mag(0, u128::MAX), mag(0, u128::MAX), mag(1, u128::MAX), -2i8..=3).prop_map(|(th, ayes, nays, turnout, all, d)| Near { th, ayes, nays, turnout, all, d }).boxed() }
/// nays are moved to within two units of the point where the outcome changes (d = 3: left as generated)
fn threshold(x: &Near, m: &mut Meter) -> Res {
	let th = [Th::SuperMajorityApprove, Th::SimpleMajority, Th::SuperMajorityAgainst][x.th as usize];
	let (t, e) = (isqrt(x.turnout), isqrt(x.all));
	let limit = match x.th { 0 => b(x.ayes) * b(t) / b(e), 1 => b(x.ayes), _ => if t == 0 { b(0) } else { b(x.ayes) * b(e) / b(t) } };
	let mut nays = x.nays;
	if let (true, Some(l)) = (x.d < 3, small(limit)) { nays = if x.d < 0 { l.saturating_sub(x.d.unsigned_abs() as u128) } else { l.saturating_add(x.d as u128) }; m.label("near the limit"); }
	let want = passes(th, x.ayes, nays, x.turnout, x.all);
	ensure_eq!(th.approved(Tally { ayes: x.ayes, nays, turnout: x.turnout }, x.all), want, "{th:?}: ayes {} nays {nays} turnout {} electorate {}", x.ayes, x.turnout, x.all);
	m.label(if want { "passes" } else { "fails" });
	m.nontrivial();
	Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vt { c: u8, x: u128 }
fn strength(x: &Vt, m: &mut Meter) -> Res {
	let k = conv(x.c);
	let d = k.votes(x.x);
	ensure_eq!(d.capital, x.x, "{k:?}: capital");
	ensure_eq!(d.votes, if x.c == 0 { x.x / 10 } else { x.x.saturating_mul(x.c as u128) }, "{k:?}: votes for {}", x.x);
	ensure_eq!(k.lock_periods() as u64, lock_periods(k), "{k:?}: lock periods");
	for aye in [false, true] {
		let v = Vote { aye, conviction: k };
		ensure_eq!(codec::Decode::decode(&mut &v.encode()[..]), Ok(v), "vote read back");
		ensure_eq!(v.encode(), vec![x.c | if aye { 128 } else { 0 }], "vote byte");
	}
	m.nontrivial();
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("balances, reserves and locks by the stand-in for pallet-balances; scheduler, preimage store and staking hooks by recorders of the check that follow their traits");
	if id == "C44" {
		c.check("histories", "up to 40 calls and block steps, most of them votes, delegations, removals and unlocks by 6 accounts; non-trivial: a vote was cast or removed, or delegated to a voter", 60_000, 1_500_000, || case(false, 40), run);
		c.check("strength", "votes and lock time of a conviction, and the vote byte; non-trivial: all", 40_000, 400_000, || (0u8..7, mag(0, u128::MAX)).prop_map(|(c, x)| Vt { c, x }), strength);
	} else {
		c.check("histories", "up to 40 calls and block steps, most of them proposals, deposits, tabling, vetoes, blacklisting and cancellations; non-trivial: a vote was cast or removed, or a referendum fast-tracked", 60_000, 1_500_000, || case(true, 40), run);
		c.check("threshold", "any tally and electorate, nays within two units of the point where the outcome changes; non-trivial: all", 300_000, 6_000_000, near, threshold);
	}
	std::process::exit(c.finish());
}
