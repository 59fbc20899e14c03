use codec::{Decode, Encode};
use frame_support::PalletId;
use frame_system::RawOrigin;
use hydra_dx_math::staking as math;
use kit::fakes::*;
use kit::*;
use pallet_democracy::traits::DemocracyHooks;
use pallet_democracy::{AccountVote, Conviction as C, Vote as DVote};
use pallet_staking::integrations::democracy::StakingDemocracy;
use pallet_staking::types::Action;
use pallet_staking::{Event as E, STAKING_LOCK_ID};
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Staking: pallet_staking });
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { period: u64, min: u128, time_w: u32, action_w: u32, per_period: u8, unclaimable: u128, stake_w: u8, sigmoid: bool, cap: u64, slash_from: u32, slash: u64, max_points: u32, init: bool, seed: u128, start: u64 }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); static VEST: RefCell<BTreeMap<u64, u128>> = RefCell::new(Default::default()); static DONE: RefCell<BTreeSet<u32>> = RefCell::new(Default::default()); }
fn cfg() -> Cfg { CFG.with(|c| c.borrow().clone()) }
fn vested(w: u64) -> u128 { VEST.with(|v| v.borrow().get(&w).copied().unwrap_or(0)) }
fn done(r: u32) -> bool { DONE.with(|v| v.borrow().contains(&r)) }
const COLLECTION: u32 = 7;
fn pot() -> u64 { PalletId(*b"staking#").into_account_truncating() }
pub struct Admin;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Admin {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(o) } }
}
pub struct Payable;
fn payable(p: u128) -> Option<FixedU128> {
	let c = cfg();
	if c.sigmoid { math::sigmoid(p, FixedU128::from_rational(c.cap as u128 + 1, 5000), 2000) } else { Some(FixedU128::from_rational(p.min(c.cap as u128), c.cap as u128 + 1)) }
}
impl pallet_staking::traits::PayablePercentage<u128> for Payable { fn get(p: u128) -> Option<FixedU128> { payable(p) } }
fn min_slash(p: FixedU128) -> u128 { let c = cfg(); if p >= FixedU128::from_rational(c.slash_from as u128, 1_000_000) { c.slash as u128 } else { 0 } }
pub struct Slash;
impl orml_traits::GetByKey<FixedU128, u128> for Slash { fn get(p: &FixedU128) -> u128 { min_slash(*p) } }
pub struct Points;
impl orml_traits::GetByKey<Action, u32> for Points { fn get(_: &Action) -> u32 { cfg().max_points } }
pub struct Referenda;
impl pallet_staking::traits::DemocracyReferendum for Referenda { fn is_referendum_finished(r: u32) -> bool { done(r) } }
pub struct Vests;
impl pallet_staking::traits::VestingDetails<u64, u128> for Vests { fn locked(w: u64) -> u128 { vested(w) } }
pub struct Freezer;
impl pallet_staking::traits::Freeze<u64, u32> for Freezer { fn freeze_collection(o: u64, c: u32) -> DispatchResult { push(Act::Custom("freeze", vec![o as u128, c as u128])); Ok(()) } }
parameter_types! {
	pub Period: u64 = cfg().period;
	pub const Pid: PalletId = PalletId(*b"staking#");
	pub MinStake: u128 = cfg().min;
	pub TimeW: Permill = Permill::from_parts(cfg().time_w);
	pub ActionW: Perbill = Perbill::from_parts(cfg().action_w);
	pub PerPeriod: u8 = cfg().per_period;
	pub Unclaimable: u128 = cfg().unclaimable;
	pub StakeW: u8 = cfg().stake_w;
}
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
impl pallet_staking::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AuthorityOrigin = Admin;
	type AssetId = AssetId;
	type Currency = Tokens;
	type PeriodLength = Period;
	type PalletId = Pid;
	type NativeAssetId = ConstU32<0>;
	type MinStake = MinStake;
	type TimePointsWeight = TimeW;
	type ActionPointsWeight = ActionW;
	type TimePointsPerPeriod = PerPeriod;
	type UnclaimablePeriods = Unclaimable;
	type CurrentStakeWeight = StakeW;
	type MaxVotes = ConstU32<3>;
	type NFTCollectionId = ConstU32<COLLECTION>;
	type PayablePercentage = Payable;
	type BlockNumberProvider = System;
	type PositionItemId = u32;
	type CollectionId = u32;
	type Collections = Freezer;
	type NFTHandler = Nft;
	type MinSlash = Slash;
	type MaxPointsPerAction = Points;
	type ReferendumInfo = Referenda;
	type Vesting = Vests;
	type WeightInfo = ();
}
type Hook = StakingDemocracy<Test>;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Init { root: bool },
	Stake { who: u64, x: A },
	Increase { who: Option<u64>, id: u8, x: A },
	Claim { who: Option<u64>, id: u8 },
	Unstake { who: Option<u64>, id: u8 },
	Vote { who: u64, r: u32, x: A, conv: u8 },
	RemoveVote { who: u64, r: u32, fin: u8 },
	/// leave: all votes withdrawn before the position is given up
	Leave { id: u8 },
	Finish { r: u32 },
	Fee { from: u64, a: AssetId, x: A },
	Blocks { n: u16 },
	Vest { who: u64, x: A },
	Send { who: u64, to: u64, x: A },
}
fn who() -> impl Strategy<Value = u64> { 1u64..=4 }
fn own() -> impl Strategy<Value = Option<u64>> { prop::option::weighted(0.08, 1u64..=4) }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		1 => any::<bool>().prop_map(|root| Op::Init { root }),
		5 => (who(), prop_oneof![3 => amt(), 2 => (-2i16..=2).prop_map(A::Off)]).prop_map(|(who, x)| Op::Stake { who, x }),
		4 => (own(), 0u8..5, amt()).prop_map(|(who, id, x)| Op::Increase { who, id, x }),
		4 => (own(), 0u8..5).prop_map(|(who, id)| Op::Claim { who, id }),
		2 => (own(), 0u8..5).prop_map(|(who, id)| Op::Unstake { who, id }),
		6 => (who(), 0u32..6, amt(), 0u8..8).prop_map(|(who, r, x, conv)| Op::Vote { who, r, x, conv }),
		4 => (who(), 0u32..6, prop_oneof![6 => Just(3u8), 1 => 0u8..3]).prop_map(|(who, r, fin)| Op::RemoveVote { who, r, fin }),
		1 => (0u8..5).prop_map(|id| Op::Leave { id }),
		3 => (0u32..6).prop_map(|r| Op::Finish { r }),
		5 => (5u64..=6, prop_oneof![8 => Just(0u32), 1 => Just(1u32)], amt()).prop_map(|(from, a, x)| Op::Fee { from, a, x }),
		5 => prop_oneof![1u16..20, 1u16..2000].prop_map(|n| Op::Blocks { n }),
		1 => (who(), amt()).prop_map(|(who, x)| Op::Vest { who, x }),
		1 => (who(), 1u64..=6, amt()).prop_map(|(who, to, x)| Op::Send { who, to, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	(((1u64..30, prop_oneof![1u128..1000, mag(1, 1 << 70)], 0u32..=1_000_000, 0u32..=1_000_000_000, prop_oneof![0u8..5, any::<u8>()], prop_oneof![3 => 0u128..4, 1 => 0u128..30], prop_oneof![4 => 1u8..5, 1 => any::<u8>()]),
		(any::<bool>(), prop_oneof![0u64..200, 0u64..5000], 0u32..=1_000_000, prop_oneof![0u64..100, 0u64..3000], prop_oneof![1u32..200, any::<u32>()], prop::bool::weighted(0.95), mag(0, 1 << 60), prop_oneof![1u64..50, 1u64..1_000_000]))
		.prop_map(|((period, min, time_w, action_w, per_period, unclaimable, stake_w), (sigmoid, cap, slash_from, slash, max_points, init, seed, start))| Cfg { period, min, time_w, action_w, per_period, unclaimable, stake_w, sigmoid, cap, slash_from, slash, max_points, init, seed, start }),
		proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, mut ops)| {
		if cfg.init { ops.insert(0, Op::Init { root: true }); ops.insert(1, Op::Stake { who: 1, x: A::Part(400_000) }); ops.insert(2, Op::Fee { from: 5, a: 0, x: A::Part(10_000) }); }
		Case { cfg, ops }
	})
}
#[derive(Clone, Debug, PartialEq)]
struct Pos { owner: u64, stake: u128, action: u128, rps: u128, created: u64, slash: u128, unpaid: u128, locked: u128, votes: BTreeMap<u32, (u128, u8)> }
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, init: bool, total: u128, rps: u128, reserved: u128, pos: BTreeMap<u32, Pos>, next: u32, processed: BTreeMap<(u64, u32), (u128, u8)>, now: u64 }
#[derive(Default)]
struct Out { ev: Vec<E<Test>>, used: Option<u128>, paid: u128, points: bool }
fn fx(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
/// action points of a vote: its part of the largest possible one, times the points for an action
fn points(stake: u128, v: (u128, u8)) -> u128 {
	let weighted = if v.1 == 0 { v.0 / 10 } else { v.0 * v.1 as u128 };
	small(b(weighted) * b(cfg().max_points as u128) / (b(stake) * b(6))).unwrap()
}
impl M {
	fn id(&self, id: u8) -> u32 { let n = self.pos.len() as u32; if n == 0 || id == 4 { id as u32 } else { *self.pos.keys().nth((id as u32 % n) as usize).unwrap() } }
	fn owner(&self, w: Option<u64>, id: u8) -> u64 { w.unwrap_or_else(|| self.pos.get(&self.id(id)).map_or(1, |p| p.owner)) }
	fn of(&self, w: u64) -> Option<u32> { self.pos.iter().find(|p| p.1.owner == w).map(|p| *p.0) }
	fn lock(&mut self) {
		let mut l = BTreeMap::new();
		for w in 1..=4u64 { let s = self.of(w).map_or(0, |p| self.pos[&p].stake + self.pos[&p].locked); let v = s.max(vested(w)); if v > 0 { l.insert((w, 0), v); } }
		self.l.locks = l;
	}
	fn stakeable(&self, w: u64, p: Option<u32>) -> u128 { let s = p.and_then(|p| self.pos.get(&p)).map_or(0, |p| p.stake + p.locked); self.l.get(&w, 0).saturating_sub(vested(w)).saturating_sub(s) }
	fn amount(&self, o: &Op) -> u128 {
		match o {
			Op::Stake { who, x } => x.of(if matches!(x, A::Off(_)) && who % 2 == 0 { cfg().min } else { self.stakeable(*who, None) }),
			Op::Increase { who, id, x } => { let w = self.owner(*who, *id); x.of(if matches!(x, A::Off(_)) && w % 2 == 0 { cfg().min } else { self.stakeable(w, Some(self.id(*id))) }) }
			Op::Vote { who, x, .. } => x.of(self.of(*who).map_or(1000, |p| self.pos[&p].stake)),
			Op::Fee { from, a, x } => x.of(self.l.get(from, *a)),
			Op::Vest { who, x } | Op::Send { who, x, .. } => x.of(self.l.get(who, 0)),
			_ => 0,
		}
	}
	/// hand what came into the pot to the stakers
	fn distribute(&mut self, out: &mut Out) -> Option<()> {
		if self.total == 0 { return Some(()) }
		let new = self.l.get(&pot(), 0).checked_sub(self.reserved)?;
		let rps = quo(b(self.rps) + b(new) * b(1_000_000_000_000_000_000) / b(self.total), b(1))?;
		small(b(new) * b(1_000_000_000_000_000_000) / b(self.total))?;
		if rps == self.rps { return Some(()) }
		self.rps = rps;
		self.reserved += new;
		out.ev.push(E::AccumulatedRpsUpdated { accumulated_rps: fx(rps), total_stake: self.total });
		Some(())
	}
	/// votes on finished referenda become points
	fn settle_votes(&mut self, id: u32, out: &mut Out) {
		let p = self.pos.get_mut(&id).unwrap();
		for (r, v) in p.votes.clone() { if done(r) {
			p.action += points(p.stake, v);
			if points(p.stake, v) > 0 { out.points = true; }
			p.votes.remove(&r);
			self.processed.insert((p.owner, r), v);
		} }
	}
	fn period(&self, t: u64) -> u128 { t as u128 / cfg().period as u128 }
	fn points(&self, p: &Pos) -> Option<u128> {
		let c = cfg();
		math::calculate_points(self.period(p.created), self.period(self.now), c.per_period, Permill::from_parts(c.time_w), p.action, Perbill::from_parts(c.action_w), p.slash)
	}
	/// (to pay now, kept for later, percentage)
	fn rewards(&self, p: &Pos) -> Option<(u128, u128, FixedU128)> {
		let new = quo(b(p.stake) * b(self.rps - p.rps), b(1_000_000_000_000_000_000))?;
		if self.period(self.now) - self.period(p.created) <= cfg().unclaimable { return Some((0, p.unpaid + new, fx(0))) }
		let pct = payable(self.points(p)?)?;
		let all = new + p.locked + p.unpaid;
		let pay = md(all, pct.into_inner(), 1_000_000_000_000_000_000)?.saturating_sub(p.locked);
		Some((pay, new + p.unpaid - pay, pct))
	}
	fn step(&mut self, op: &Op, x: u128) -> Option<Out> {
		let c = cfg();
		let mut out = Out::default();
		match *op {
			Op::Init { root } => {
				if !root || self.init || self.l.get(&pot(), 0) == 0 { return None }
				self.init = true;
				self.reserved = self.l.get(&pot(), 0);
				out.ev.push(E::StakingInitialized { non_dustable_balance: self.reserved });
			}
			Op::Stake { who, .. } => {
				if x < c.min || !self.init || self.of(who).is_some() { return None }
				self.distribute(&mut out)?;
				if self.l.get(&who, 0) < vested(who) || self.stakeable(who, None) < x { return None }
				let id = self.next;
				self.next += 1;
				self.pos.insert(id, Pos { owner: who, stake: x, action: 0, rps: self.rps, created: self.now, slash: 0, unpaid: 0, locked: 0, votes: BTreeMap::new() });
				self.total += x;
				self.lock();
				out.ev.push(E::PositionCreated { who, position_id: id, stake: x });
			}
			Op::Increase { who, id, .. } => {
				let (who, id) = (self.owner(who, id), self.id(id));
				if x < c.min || !self.init || self.pos.get(&id)?.owner != who || self.processed.keys().any(|k| k.0 == who) { return None }
				self.distribute(&mut out)?;
				if self.l.get(&who, 0) < vested(who) || self.stakeable(who, Some(id)) < x { return None }
				self.settle_votes(id, &mut out);
				let mut p = self.pos[&id].clone();
				let (pay, unpaid, pct) = self.rewards(&p)?;
				self.l.mv(0, &pot(), &who, pay)?;
				p.locked += pay;
				p.unpaid = unpaid;
				p.rps = self.rps;
				let slashed = math::calculate_slashed_points(self.points(&p)?, p.stake, x, c.stake_w, min_slash(pct))?;
				p.slash += slashed;
				p.stake += x;
				self.reserved -= pay;
				self.total += x;
				out.paid = pay;
				out.ev.push(E::StakeAdded { who, position_id: id, stake: x, total_stake: p.stake, locked_rewards: pay, slashed_points: slashed, payable_percentage: pct });
				self.pos.insert(id, p);
				self.lock();
			}
			Op::Claim { who, id } => {
				let (who, id) = (self.owner(who, id), self.id(id));
				if !self.init || self.pos.get(&id)?.owner != who || self.processed.keys().any(|k| k.0 == who) { return None }
				self.distribute(&mut out)?;
				self.settle_votes(id, &mut out);
				let mut p = self.pos[&id].clone();
				let (pay, unpaid, pct) = self.rewards(&p)?;
				self.l.mv(0, &pot(), &who, pay)?;
				let unlocked = std::mem::take(&mut p.locked);
				p.unpaid = unpaid;
				let slashed = self.points(&p)?;
				p.slash += slashed;
				let back = if self.period(self.now) - self.period(p.created) > c.unclaimable { std::mem::take(&mut p.unpaid) } else { 0 };
				p.rps = self.rps;
				self.reserved -= pay + back;
				out.paid = pay;
				out.ev.push(E::RewardsClaimed { who, position_id: id, paid_rewards: pay, unlocked_rewards: unlocked, slashed_points: slashed, slashed_unpaid_rewards: back, payable_percentage: pct });
				self.pos.insert(id, p);
				self.lock();
			}
			Op::Unstake { who, id } => {
				let (who, id) = (self.owner(who, id), self.id(id));
				if !self.init || self.pos.get(&id)?.owner != who { return None }
				self.distribute(&mut out)?;
				let p = self.pos[&id].clone();
				if !p.votes.is_empty() || self.processed.keys().any(|k| k.0 == who) { return None }
				let (pay, back, pct) = self.rewards(&p)?;
				self.l.mv(0, &pot(), &who, pay)?;
				let pts = self.points(&p)?;
				self.total -= p.stake;
				self.reserved -= pay + back;
				self.pos.remove(&id);
				self.lock();
				out.paid = pay;
				out.ev.push(E::RewardsClaimed { who, position_id: id, paid_rewards: pay, unlocked_rewards: p.locked, slashed_points: pts, slashed_unpaid_rewards: back, payable_percentage: pct });
				out.ev.push(E::Unstaked { who, position_id: id, unlocked_stake: p.stake });
			}
			Op::Vote { who, r, conv, .. } => {
				let Some(id) = self.of(who) else { return Some(out) };
				self.settle_votes(id, &mut out);
				let free = self.l.get(&who, 0).saturating_sub(vested(who)).saturating_sub(self.pos[&id].locked);
				let p = self.pos.get_mut(&id).unwrap();
				if p.votes.len() == 3 && !p.votes.contains_key(&r) { return None }
				p.votes.insert(r, (x.min(p.stake).min(free), if conv == 7 { 0 } else { conv }));
			}
			Op::RemoveVote { who, r, fin } => self.remove_vote(who, r, fin, &mut out),
			Op::Leave { id } => {
				let id = self.id(id);
				let Some(p) = self.pos.get(&id).cloned() else { return Some(out) };
				for r in 0..6 { self.remove_vote(p.owner, r, 3, &mut out); }
			}
			Op::Fee { from, a, .. } => {
				if a == 0 && self.init { self.l.mv(0, &from, &pot(), x)?; out.used = Some(x) } else { out.used = Some(0) }
			}
			Op::Vest { .. } => self.lock(),
			Op::Send { who, to, .. } => self.l.mv(0, &who, &to, x)?,
			Op::Blocks { .. } | Op::Finish { .. } => {}
		}
		Some(out)
	}
	fn remove_vote(&mut self, who: u64, r: u32, fin: u8, out: &mut Out) {
		let Some(id) = self.of(who) else { return };
		if self.processed.remove(&(who, r)).is_some() { return }
		let p = self.pos.get_mut(&id).unwrap();
		if let Some(v) = p.votes.remove(&r) { if finished(r, fin) == Some(true) { p.action += points(p.stake, v); if points(p.stake, v) > 0 { out.points = true; } } }
	}
}
fn finished(r: u32, fin: u8) -> Option<bool> { match fin { 0 => None, 1 => Some(false), 2 => Some(true), _ => Some(done(r)) } }
const CONV: [C; 7] = [C::None, C::Locked1x, C::Locked2x, C::Locked3x, C::Locked4x, C::Locked5x, C::Locked6x];
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg.clone());
	VEST.with(|v| v.borrow_mut().clear());
	DONE.with(|v| v.borrow_mut().clear());
	take_acts();
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: c.cfg.start, ..Default::default() };
	let mut bal = vec![(pot(), 0, c.cfg.seed)];
	for w in 1..=6u64 { bal.push((w, 0, (1u128 << 80) + w as u128)); bal.push((w, 1, 1 << 60)); }
	bal.retain(|x| x.2 > 0);
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, 4, 5, 6, pot()];
	fresh(st, || {
		System::set_block_number(model.now);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			match *o {
				Op::Blocks { n } => { model.now += n as u64; System::set_block_number(model.now); }
				Op::Finish { r } => DONE.with(|d| { if !d.borrow_mut().insert(r) && i % 3 == 0 { d.borrow_mut().remove(&r); } }),
				Op::Vest { who, .. } => { VEST.with(|v| { v.borrow_mut().insert(who, x); }); if x > 0 { Tokens::set_lock(*b"ormlvest", 0, &who, x).unwrap(); } else { Tokens::remove_lock(*b"ormlvest", 0, &who).unwrap(); } }
				_ => {}
			}
			let mut next = model.clone();
			let want = next.step(o, x);
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let mut used = None;
			let got = atomic(what, || match *o {
				Op::Init { root } => Staking::initialize_staking(if root { RawOrigin::Root.into() } else { sg(1) }),
				Op::Stake { who, .. } => Staking::stake(sg(who), x),
				Op::Increase { who, id, .. } => Staking::increase_stake(sg(model.owner(who, id)), model.id(id), x),
				Op::Claim { who, id } => Staking::claim(sg(model.owner(who, id)), model.id(id)),
				Op::Unstake { who, id } => Staking::unstake(sg(model.owner(who, id)), model.id(id)),
				Op::Vote { who, r, conv, .. } => frame_support::storage::with_storage_layer(|| Hook::on_vote(&who, r, if conv == 7 { AccountVote::Split { aye: x / 3, nay: x - x / 3 } } else { AccountVote::Standard { vote: DVote { aye: r % 2 == 0, conviction: CONV[conv as usize] }, balance: x } })),
				Op::RemoveVote { who, r, fin } => {
					// how much stays locked is known as long as the vote is
					let amount = model.of(who).and_then(|p| model.processed.get(&(who, r)).or(model.pos[&p].votes.get(&r))).map(|v| v.0);
					let locked = Hook::remove_vote_locks_if_needed(&who, r);
					if locked != amount { return Err(DispatchError::Other("amount of the vote")) }
					Hook::on_remove_vote(&who, r, finished(r, fin));
					Ok(())
				}
				Op::Leave { id } => { if let Some(p) = model.pos.get(&model.id(id)) { for r in 0..6 { Hook::on_remove_vote(&p.owner, r, Some(done(r))); } } Ok(()) }
				Op::Fee { from, a, .. } => Staking::process_trade_fee(from, a, x).map(|u| used = Some(u)),
				Op::Send { who, to, .. } => <Tokens as MultiCurrency<u64>>::transfer(0, &who, &to, x),
				_ => Ok(()),
			})?;
			agree(what, &got, &want)?;
			let acts = take_acts();
			let Some(out) = want else { m.label("refused"); continue };
			let old = std::mem::replace(&mut model, next);
			ensure_eq!(used, out.used, "{}: fee used", what());
			ensure_eq!(acts, if matches!(o, Op::Init { .. }) { vec![Act::Custom("freeze", vec![pot() as u128, COLLECTION as u128])] } else { vec![] }, "{}: collection", what());
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Staking(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out.ev, "{}: events", what());
			if out.paid > 0 { m.nontrivial(); m.label("paid"); }
			if out.points { m.label("action points"); }
			match o { Op::Stake { .. } => m.label("stake"), Op::Increase { .. } => m.label("increase"), Op::Claim { .. } => m.label("claim"), Op::Unstake { .. } => m.label("unstake"), _ => {} }
			same_ledger(&model.l, &accounts, &[0, 1], |a, w| <Tokens as MultiCurrency<u64>>::total_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			let data = Staking::staking();
			ensure_eq!(data.encode(), (model.total, fx(model.rps), model.reserved).encode(), "{}: staking data, wanted {:?} {:?} {:?}", what(), model.total, model.rps, model.reserved);
			ensure_that!(model.rps >= old.rps, "{}: rewards per stake sank", what());
			ensure_eq!(model.pos.values().map(|p| p.stake).sum::<u128>(), model.total, "{}: sum of stakes", what());
			let mut owed = b(0);
			for id in 0..model.next + 1 {
				let code = Staking::get_position(id);
				let p = model.pos.get(&id);
				let fields = code.map(|p| <(u128, u128, u128, u64, u128, u128, u128)>::decode(&mut &p.encode()[..]).unwrap());
				ensure_eq!(fields, p.map(|p| (p.stake, p.action, p.rps, p.created, p.slash, p.unpaid, p.locked)), "{}: position {id}", what());
				use frame_support::traits::tokens::nonfungibles::Inspect;
				ensure_eq!(Nft::owner(&COLLECTION, &id), p.map(|p| p.owner), "{}: owner of {id}", what());
				let votes: Vec<(u32, (u128, u8))> = Staking::get_position_votes(id).votes.iter().map(|(r, v)| (*r, Decode::decode(&mut &v.encode()[..]).unwrap())).collect();
				ensure_eq!(votes, p.map_or(vec![], |p| p.votes.clone().into_iter().collect::<Vec<_>>()), "{}: votes of {id}", what());
				if let Some(p) = p { owed = owed + b(p.unpaid) + b(p.stake) * b(model.rps - p.rps) / b(1_000_000_000_000_000_000); }
			}
			ensure_eq!(Staking::next_position_id(), model.next, "{}: next id", what());
			if model.init {
				ensure_that!(owed <= b(model.reserved) && model.reserved <= model.l.get(&pot(), 0), "{}: owed {owed}, reserved {}, in the pot {}", what(), model.reserved, model.l.get(&pot(), 0));
			}
			for w in 1..=4u64 {
				ensure_eq!(Staking::get_user_position_id(&w), Ok(model.of(w)), "{}: position of {w}", what());
				let lock = Tokens::locks(w, 0).into_iter().find(|l| l.id == STAKING_LOCK_ID).map(|l| l.amount);
				ensure_eq!(lock, model.of(w).map(|p| model.pos[&p].stake + model.pos[&p].locked), "{}: lock of {w}", what());
				for r in 0..6 { ensure_eq!(Staking::processed_votes(w, r).map(|v| <(u128, u8)>::decode(&mut &v.encode()[..]).unwrap()), model.processed.get(&(w, r)).copied(), "{}: processed vote of {w} on {r}", what()); }
			}
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency with locks by the stand-in for orml-tokens; items, vesting and referenda by tables");
	c.check("staking", "histories of staking, increasing, claiming, leaving, voting, referenda ending, fees and vesting against an exact model; non-trivial: rewards were paid", 60_000, 1_000_000, || case(40), run);
	std::process::exit(c.finish());
}
