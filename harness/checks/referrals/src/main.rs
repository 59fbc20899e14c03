use frame_support::traits::Hooks;
use frame_support::weights::Weight;
use frame_support::PalletId;
use frame_system::RawOrigin;
use hydradx_traits::price::PriceProvider;
use hydra_dx_math::ratio::Ratio;
use kit::*;
use pallet_referrals::{traits::Convert, AssetAmount, Event as E, FeeDistribution, Level, ReferralCode};
use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Referrals: pallet_referrals });
type Dist = (u32, u32, u32);
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { external: bool, seed: u128, fee: u128, min_code: u32, table: [Dist; 6], volume: [u128; 6], min_convert: u128 }
#[derive(Clone, Debug, Default)]
struct World { price: BTreeMap<AssetId, (u128, u128)>, rate: BTreeMap<AssetId, (u128, u128)>, broken: BTreeSet<AssetId> }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); static WORLD: RefCell<World> = RefCell::new(World::default()); }
fn cfg() -> Cfg { CFG.with(|c| c.borrow().clone()) }
fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut *w.borrow_mut())) }
const REWARD: AssetId = 0;
const ASSETS: [AssetId; 4] = [0, 1, 2, 3];
const BENEFICIARY: u64 = 8;
const EXTERNAL: u64 = 7;
const POOL: u64 = 9;
const MARKET: u64 = 50;
const ADMIN: u64 = 6;
fn pot() -> u64 { PalletId(*b"referral").into_account_truncating() }
fn dist(d: Dist) -> FeeDistribution { FeeDistribution { referrer: Permill::from_parts(d.0), trader: Permill::from_parts(d.1), external: Permill::from_parts(d.2) } }
const LEVELS: [Level; 6] = [Level::None, Level::Tier0, Level::Tier1, Level::Tier2, Level::Tier3, Level::Tier4];
fn idx(l: &Level) -> usize { LEVELS.iter().position(|x| x == l).unwrap() }
pub struct Table;
impl orml_traits::GetByKey<Level, (u128, FeeDistribution)> for Table { fn get(l: &Level) -> (u128, FeeDistribution) { let c = cfg(); (c.volume[idx(l)], dist(c.table[idx(l)])) } }
pub struct Prices;
impl PriceProvider<AssetId> for Prices {
	type Price = Ratio;
	fn get_price(a: AssetId, b: AssetId) -> Option<Ratio> { if a != REWARD { return None } world(|w| w.price.get(&b).map(|(n, d)| Ratio::new(*n, *d))) }
}
pub struct Market;
impl Convert<u64, AssetId, u128> for Market {
	type Error = DispatchError;
	fn convert(who: u64, from: AssetId, to: AssetId, x: u128) -> Result<u128, DispatchError> {
		frame_support::storage::with_storage_layer(|| {
			<Tokens as MultiCurrency<u64>>::transfer(from, &who, &MARKET, x)?; // undone on failure below
			let y = quote(from, to, x).map_err(|e| match e { Bad::Small => pallet_referrals::Error::<Test>::ConversionMinTradingAmountNotReached.into(), Bad::Nothing => pallet_referrals::Error::<Test>::ConversionZeroAmountReceived.into(), Bad::Broken => DispatchError::Other("broken") })?;
			<Tokens as MultiCurrency<u64>>::transfer(to, &MARKET, &who, y)?;
			Ok(y)
		})
	}
}
enum Bad { Small, Nothing, Broken }
fn quote(from: AssetId, to: AssetId, x: u128) -> Result<u128, Bad> {
	if to != REWARD || from == to || world(|w| w.broken.contains(&from)) { return Err(Bad::Broken) }
	if x < cfg().min_convert { return Err(Bad::Small) }
	let (n, d) = world(|w| w.rate.get(&from).copied().unwrap_or((1, 1)));
	match md(x, n, d) { Some(0) => Err(Bad::Nothing), Some(y) => Ok(y), None => Err(Bad::Broken) }
}
pub struct Weights;
impl pallet_referrals::WeightInfo for Weights {
	fn register_code() -> Weight { Weight::zero() }
	fn link_code() -> Weight { Weight::zero() }
	fn convert() -> Weight { Weight::from_parts(1000, 0) }
	fn claim_rewards() -> Weight { Weight::zero() }
	fn set_reward_percentage() -> Weight { Weight::zero() }
}
pub struct Admin;
impl frame_support::traits::EnsureOrigin<RuntimeOrigin> for Admin {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> { match o.clone().into() { Ok(RawOrigin::Root) => Ok(()), Ok(RawOrigin::Signed(ADMIN)) => Ok(()), _ => Err(o) } }
}
parameter_types! {
	pub RegFee: (AssetId, u128, u64) = (1, cfg().fee, BENEFICIARY);
	pub External: Option<u64> = if cfg().external { Some(EXTERNAL) } else { None };
	pub Seed: u128 = cfg().seed;
	pub MinLen: u32 = cfg().min_code;
	pub const Pid: PalletId = PalletId(*b"referral");
}
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());
impl pallet_referrals::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AuthorityOrigin = Admin;
	type AssetId = AssetId;
	type Currency = Tokens;
	type Convert = Market;
	type PriceProvider = Prices;
	type RewardAsset = ConstU32<0>;
	type PalletId = Pid;
	type RegistrationFee = RegFee;
	type CodeLength = ConstU32<7>;
	type MinCodeLength = MinLen;
	type LevelVolumeAndRewardPercentages = Table;
	type ExternalAccount = External;
	type SeedNativeAmount = Seed;
	type WeightInfo = Weights;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Register { who: u64, code: String },
	Link { who: u64, code: String },
	Convert { who: u64, a: AssetId },
	Claim { who: u64 },
	SetReward { who: u64, a: AssetId, level: u8, d: Dist },
	Fee { trader: u64, a: AssetId, x: A },
	Price { a: AssetId, p: Option<(u128, u128)> },
	Rate { a: AssetId, p: Option<(u128, u128)> },
	Idle { k: u8, extra: u16 },
	Donate { who: u64, a: AssetId, x: A },
	Spend { who: u64, a: AssetId, x: A },
}
fn who() -> impl Strategy<Value = u64> { prop_oneof![8 => 1u64..=4, 1 => Just(EXTERNAL)] }
fn code() -> impl Strategy<Value = String> {
	prop_oneof![10 => prop::sample::select(vec!["ABCD", "abcd", "aBcD", "XYZ12", "xyz12", "1234567", "77777"]), 1 => prop::sample::select(vec!["", "A", "AB", "ABC", "AB-CD", "AB CD", "ABC_D"])].prop_map(|s| s.to_string())
}
fn permille() -> impl Strategy<Value = u32> { prop_oneof![3 => 0u32..=400_000, 1 => 0u32..=1_000_000, 1 => prop::sample::select(vec![0u32, 1, 333_333, 500_000, 1_000_000])] }
fn dst() -> impl Strategy<Value = Dist> { prop_oneof![6 => (0u32..=333_333, 0u32..=333_333, 0u32..=333_333), 3 => (permille(), permille(), permille()), 2 => (0u32..=1_000_000, 0u32..=1_000_000, -1i32..=1).prop_map(|(a, c, e)| { let (a, c) = if a + c > 1_000_000 { (1_000_000 - a, 1_000_000 - c) } else { (a, c) }; (a, c, (1_000_000 - a as i32 - c as i32 + e).clamp(0, 1_000_000) as u32) })] }
fn ratio() -> impl Strategy<Value = (u128, u128)> { prop_oneof![Just((1u128, 1u128)), (1u128..1000, 1u128..1000), (mag(1, 1 << 30), mag(1, 1 << 30)), (Just(0u128), Just(1u128))] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		4 => (who(), code()).prop_map(|(who, code)| Op::Register { who, code }),
		5 => (who(), code()).prop_map(|(who, code)| Op::Link { who, code }),
		2 => (prop_oneof![8 => who().boxed(), 1 => Just(0u64).boxed()], 0u32..4).prop_map(|(who, a)| Op::Convert { who, a }),
		5 => who().prop_map(|who| Op::Claim { who }),
		2 => (prop_oneof![5 => Just(ADMIN), 1 => who()], 0u32..4, 0u8..6, dst()).prop_map(|(who, a, level, d)| Op::SetReward { who, a, level, d }),
		9 => (who(), 0u32..4, amt()).prop_map(|(trader, a, x)| Op::Fee { trader, a, x }),
		1 => (0u32..4, prop::option::weighted(0.8, ratio())).prop_map(|(a, p)| Op::Price { a, p }),
		1 => (1u32..4, prop::option::weighted(0.6, ratio())).prop_map(|(a, p)| Op::Rate { a, p }),
		2 => (0u8..4, prop_oneof![0u16..1000, Just(0u16), Just(999u16)]).prop_map(|(k, extra)| Op::Idle { k, extra }),
		1 => (who(), 0u32..4, amt()).prop_map(|(who, a, x)| Op::Donate { who, a, x }),
		1 => (who(), 0u32..4, amt()).prop_map(|(who, a, x)| Op::Spend { who, a, x }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((prop::bool::weighted(0.7), prop_oneof![Just(0u128), 1u128..100, mag(1, 1 << 60)], prop_oneof![Just(0u128), mag(1, 1 << 82)], 1u32..=5, prop::array::uniform6(prop_oneof![9 => (0u32..=333_333, 0u32..=333_333, 0u32..=333_333), 1 => (permille(), permille(), permille())]), prop::array::uniform6(prop_oneof![mag(0, 1 << 80), 0u128..1000]), prop_oneof![Just(0u128), mag(1, 1 << 60)], any::<bool>())
		.prop_map(|(external, seed, fee, min_code, table, mut volume, min_convert, sorted)| { if sorted { volume.sort(); } Cfg { external, seed, fee, min_code, table, volume, min_convert } }),
		proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, mut ops)| {
		ops.insert(0, Op::Register { who: 1, code: "abcde".into() });
		ops.insert(1, Op::Link { who: 2, code: "ABCDE".into() });
		Case { cfg, ops }
	})
}
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, codes: BTreeMap<String, u64>, linked: BTreeMap<u64, u64>, rsh: BTreeMap<u64, u128>, tsh: BTreeMap<u64, u128>, total: u128, level: BTreeMap<u64, (usize, u128)>, rewards: BTreeMap<(AssetId, u8), Dist>, pending: BTreeSet<AssetId> }
enum Out { Ev(Vec<E<Test>>), Taken(u128) }
fn bc(s: &str) -> ReferralCode<ConstU32<7>> { ReferralCode::truncate_from(s.as_bytes().to_vec()) }
impl M {
	fn keep(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Option<()> {
		self.l.mv(a, &f, &t, x)?;
		if x > 0 && f != t && self.l.get(&f, a) == 0 { return None }
		Some(())
	}
	fn convert(&mut self, a: AssetId) -> Result<u128, Bad> {
		let x = self.l.get(&pot(), a);
		let y = quote(a, REWARD, x)?;
		self.l.mv(a, &pot(), &MARKET, x).ok_or(Bad::Broken)?;
		self.l.mv(REWARD, &MARKET, &pot(), y).ok_or(Bad::Broken)?;
		Ok(y)
	}
	fn amount(&self, o: &Op) -> u128 {
		match o {
			Op::Fee { a, x, .. } => match x { A::Part(p) => A::Part(*p / 5).of(self.l.get(&POOL, *a)), _ => x.of(self.l.get(&POOL, *a)) },
			Op::Donate { who, a, x } | Op::Spend { who, a, x } => x.of(self.l.get(who, *a)),
			_ => 0,
		}
	}
	fn code_of(&self, w: u64) -> Option<&String> { self.codes.iter().find(|c| *c.1 == w).map(|c| c.0) }
	fn step(&mut self, op: &Op, x: u128) -> Option<Out> {
		let c = cfg();
		Some(Out::Ev(match op {
			Op::Register { who, code } => {
				if self.code_of(*who).is_some() || code.len() < c.min_code as usize || !code.chars().all(|c| c.is_ascii_alphanumeric()) { return None }
				let code = code.to_uppercase();
				if self.codes.contains_key(&code) { return None }
				self.keep(1, *who, BENEFICIARY, c.fee)?;
				self.codes.insert(code.clone(), *who);
				self.level.insert(*who, (1, 0));
				vec![E::CodeRegistered { code: bc(&code), account: *who }]
			}
			Op::Link { who, code } => {
				let code = code.to_uppercase();
				let r = *self.codes.get(&code)?;
				if r == *who || self.linked.contains_key(who) { return None }
				self.linked.insert(*who, r);
				vec![E::CodeLinked { account: *who, code: bc(&code), referral_account: r }]
			}
			Op::Convert { who, a } => {
				if *who == 0 { return None }
				let x = self.l.get(&pot(), *a);
				if x == 0 { return None }
				let y = self.convert(*a).ok()?;
				self.pending.remove(a);
				vec![E::Converted { from: AssetAmount::new(*a, x), to: AssetAmount::new(REWARD, y) }]
			}
			Op::Claim { who } => {
				for a in std::mem::take(&mut self.pending) { if let Err(Bad::Broken) = self.convert(a) { return None } }
				let (r, t) = (self.rsh.remove(who).unwrap_or(0), self.tsh.remove(who).unwrap_or(0));
				if r + t == 0 { return Some(Out::Ev(vec![])) }
				let reserve = self.l.get(&pot(), REWARD).saturating_sub(c.seed);
				let (rr, tr) = (md(r, reserve, self.total)?, md(t, reserve, self.total)?);
				if r + t == self.total { self.l.mv(REWARD, &pot(), who, rr + tr)? } else { self.keep(REWARD, pot(), *who, rr + tr)? }
				self.total -= r + t;
				let mut ev = vec![];
				if let Some((lv, sum)) = self.level.get_mut(who) {
					*sum += rr;
					let old = *lv;
					while *lv < 5 && *sum >= c.volume[*lv + 1] { *lv += 1; }
					if *lv != old { ev.push(E::LevelUp { who: *who, level: LEVELS[*lv] }); }
				}
				ev.push(E::Claimed { who: *who, referrer_rewards: rr, trade_rewards: tr });
				ev
			}
			Op::SetReward { who, a, level, d } => {
				if *who != ADMIN || d.0 + d.1 + d.2 > 1_000_000 { return None }
				self.rewards.insert((*a, *level), *d);
				vec![E::AssetRewardsUpdated { asset_id: *a, level: LEVELS[*level as usize], rewards: dist(*d) }]
			}
			Op::Fee { trader, a, .. } => {
				let Some((n, d)) = world(|w| w.price.get(a).copied()) else { return Some(Out::Taken(0)) };
				let referrer = self.linked.get(trader).copied();
				let level = referrer.map_or(0, |r| self.level[&r].0);
				let share = self.rewards.get(&(*a, level as u8)).copied().unwrap_or(c.table[level]);
				let part = |p: u32| md(x, p as u128, 1_000_000).unwrap();
				let (r, t, e) = (referrer.map_or(0, |_| part(share.0)), part(share.1), if c.external { part(share.2) } else { 0 });
				if r.checked_add(t)?.checked_add(e)? > x { return None }
				self.keep(*a, POOL, pot(), r + t + e)?;
				let shares = |v: u128| md(v, n, d);
				let (rs, ts, es) = (shares(r)?, shares(t)?, shares(e)?);
				if let Some(w) = referrer { *self.rsh.entry(w).or_insert(0) += rs; }
				*self.tsh.entry(*trader).or_insert(0) += ts;
				if c.external { *self.tsh.entry(EXTERNAL).or_insert(0) += es; }
				self.total += rs + ts + es;
				if *a != REWARD { self.pending.insert(*a); }
				return Some(Out::Taken(r + t + e));
			}
			Op::Donate { who, a, .. } => { self.l.mv(*a, who, &pot(), x)?; vec![] }
			Op::Spend { who, a, .. } => { self.l.mv(*a, who, &BENEFICIARY, x)?; vec![] }
			Op::Price { .. } | Op::Rate { .. } | Op::Idle { .. } => vec![],
		}))
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg.clone());
	world(|w| *w = World { price: ASSETS.iter().map(|a| (*a, (3 + *a as u128, 4))).collect(), rate: ASSETS.iter().map(|a| (*a, (4, 5 + *a as u128))).collect(), broken: Default::default() });
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M::default();
	let mut bal = vec![];
	for a in ASSETS {
		for w in 1..=4u64 { if w == 4 && a == 1 { continue } bal.push((w, a, (1u128 << 80) + w as u128)); }
		bal.push((POOL, a, 1 << 88));
		bal.push((MARKET, a, 1 << 126));
		if a == REWARD && c.cfg.seed > 0 { bal.push((pot(), a, c.cfg.seed)); }
	}
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, 4, ADMIN, EXTERNAL, BENEFICIARY, POOL, MARKET, pot()];
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			match o {
				Op::Price { a, p } => world(|w| { w.price.remove(a); if let Some(p) = p { w.price.insert(*a, *p); } }),
				Op::Rate { a, p } => world(|w| { w.broken.remove(a); match p { Some(p) => { w.rate.insert(*a, *p); } None => { w.broken.insert(*a); } } }),
				_ => {}
			}
			let x = model.amount(o);
			let mut next = model.clone();
			let want = next.step(o, x);
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let mut taken = None;
			let pending = || ASSETS.iter().copied().filter(|a| Referrals::pending_conversions(*a).is_some()).collect::<BTreeSet<_>>();
			let before = pending();
			let got = atomic(what, || match o {
				Op::Register { who, code } => Referrals::register_code(sg(*who), bc(code)),
				Op::Link { who, code } => Referrals::link_code(sg(*who), bc(code)),
				Op::Convert { who, a } => Referrals::convert(if *who == 0 { RawOrigin::None.into() } else { sg(*who) }, *a),
				Op::Claim { who } => Referrals::claim_rewards(sg(*who)),
				Op::SetReward { who, a, level, d } => Referrals::set_reward_percentage(sg(*who), *a, LEVELS[*level as usize], dist(*d)),
				Op::Fee { trader, a, .. } => Referrals::process_trade_fee(POOL, *trader, *a, x).map(|t| { taken = Some(t); }),
				Op::Donate { who, a, .. } => <Tokens as MultiCurrency<u64>>::transfer(*a, who, &pot(), x),
				Op::Spend { who, a, .. } => <Tokens as MultiCurrency<u64>>::transfer(*a, who, &BENEFICIARY, x),
				Op::Idle { k, extra } => { Referrals::on_idle(1, Weight::from_parts(*k as u64 * 1000 + *extra as u64, u64::MAX)); Ok(()) }
				Op::Price { .. } | Op::Rate { .. } => Ok(()),
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			if let Op::Idle { k, .. } = o {
				// any pending assets, as many as the weight allows, converted or dropped
				let n = *k as usize;
				let after = pending();
				ensure_that!(after.is_subset(&before), "{}: new pending assets", what());
				let done: Vec<AssetId> = before.difference(&after).copied().collect();
				ensure_eq!(done.len(), n.min(before.len()), "{}: assets converted with weight for {n}", what());
				for a in done { next.pending.remove(&a); if next.convert(a).is_ok() { m.label("converted when idle"); } }
			}
			model = next;
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Referrals(e) = e { Some(e) } else { None }).collect();
			match out {
				Out::Ev(w) => {
					for e in &w { match e { E::LevelUp { .. } => m.label("level up"), E::Claimed { referrer_rewards, trade_rewards, .. } => { if *referrer_rewards > 0 && *trade_rewards > 0 { m.label("claimed both kinds"); } if referrer_rewards + trade_rewards > 0 { m.nontrivial(); } m.label("claim") } E::Converted { .. } => m.label("converted"), E::CodeLinked { .. } => m.label("linked"), _ => {} } }
					ensure_eq!(ev, w, "{}: events", what())
				}
				Out::Taken(t) => { m.label("fee"); ensure_eq!(taken, Some(t), "{}: fee taken", what()); ensure_that!(t <= x, "{}: took more than the fee", what()); ensure_eq!(ev, vec![], "{}: events", what()); }
			}
			same_ledger(&model.l, &accounts, &ASSETS, |a, w| <Tokens as MultiCurrency<u64>>::total_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			let mut sum = 0;
			for w in accounts {
				let (r, t) = (Referrals::referrer_shares(w), Referrals::trader_shares(w));
				ensure_eq!((r, t), (model.rsh.get(&w).copied().unwrap_or(0), model.tsh.get(&w).copied().unwrap_or(0)), "{}: shares of {w}", what());
				sum += r + t;
				ensure_eq!(Referrals::referral_code(w), model.code_of(w).map(|c| bc(c)), "{}: code of {w}", what());
				ensure_eq!(Referrals::linked_referral_account(w), model.linked.get(&w).copied(), "{}: link of {w}", what());
				ensure_eq!(Referrals::referrer_level(w), model.level.get(&w).map(|(l, t)| (LEVELS[*l], *t)), "{}: level of {w}", what());
			}
			ensure_eq!(Referrals::total_shares(), model.total, "{}: all shares", what());
			ensure_eq!(sum, model.total, "{}: sum of shares", what());
			for c in ["ABCD", "XYZ12", "1234567", "77777", "ABCDE", "abcd", "ABC"] { ensure_eq!(Referrals::referral_account(bc(c)), model.codes.get(c).copied(), "{}: owner of {c}", what()); }
			ensure_eq!(pending(), model.pending, "{}: pending conversions", what());
			for a in ASSETS { for l in 0..6u8 { ensure_eq!(Referrals::asset_rewards(a, LEVELS[l as usize]), model.rewards.get(&(a, l)).map(|d| dist(*d)), "{}: rewards of {a} at {l}", what()); } }
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; conversion, prices and level parameters by tables");
	c.check("referrals", "histories of codes, links, trade fees, conversions (some failing), claims and reward settings against an exact model; non-trivial: rewards were paid", 60_000, 1_000_000, || case(30), run);
	std::process::exit(c.finish());
}
