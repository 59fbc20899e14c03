use frame_support::traits::{tokens::nonfungibles::{Inspect as _, Transfer as _}, Contains};
use frame_support::weights::Weight;
use frame_system::RawOrigin;
use hydra_dx_math::{ema::EmaPrice, omnipool as om};
use hydra_dx_math::omnipool::types::{AssetReserveState as MR, AssetStateChange, BalanceUpdate, Position as MP, I129};
use hydradx_traits::router::{PoolType, TradeExecution};
use kit::fakes::{faulty, set_fault, Nft};
use kit::*;
use orml_traits::GetByKey;
use pallet_omnipool::traits::{AssetInfo, EnsurePriceWithin, ExternalPriceProvider, OmnipoolHooks};
use pallet_omnipool::types::{AssetReserveState, Position, SimpleImbalance, Tradability};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Omnipool: pallet_omnipool });
system_config!(Test, u64, ());
const HDX: AssetId = 0;
const HUB: AssetId = 1;
const HUB_ED: u128 = 400_000_000;
orml_traits::parameter_type_with_key! { pub Eds: |c: u32| -> u128 { if *c == HUB { HUB_ED } else { 1 } }; }
fn me() -> u64 { Omnipool::protocol_account() }
pub struct WhiteList;
impl Contains<u64> for WhiteList { fn contains(a: &u64) -> bool { *a == me() } }
tokens_config!(Test, Eds, WhiteList, ());

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { fees: Vec<(u32, u32)>, min_wd: u32, min_trade: u128, min_liq: u128, max_in: u128, max_out: u128, max_diff: u32 }
/// oracle price of an asset: None fails
type Oracles = BTreeMap<AssetId, Option<(u128, u128)>>;
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Take { Part(u32), Over, Lie }
impl Default for Take { fn default() -> Self { Take::Part(0) } }
#[derive(Default)]
struct Env { cfg: Cfg, oracle: Oracles, take: Take, seen: Vec<Seen> }
thread_local! { static ENV: RefCell<Env> = RefCell::new(Env::default()); }
fn env<R>(f: impl FnOnce(&mut Env) -> R) -> R { ENV.with(|e| f(&mut e.borrow_mut())) }
parameter_types! {
	pub const Hdx: AssetId = HDX;
	pub const Hub: AssetId = HUB;
	pub const Coll: u32 = 1337;
	pub MinWd: Permill = Permill::from_parts(env(|e| e.cfg.min_wd));
	pub MinTrade: u128 = env(|e| e.cfg.min_trade);
	pub MinLiq: u128 = env(|e| e.cfg.min_liq);
	pub MaxIn: u128 = env(|e| e.cfg.max_in);
	pub MaxOut: u128 = env(|e| e.cfg.max_out);
	pub MaxDiff: Permill = Permill::from_parts(env(|e| e.cfg.max_diff));
	pub const Tech: u64 = 9;
}
pub struct Fees;
impl GetByKey<AssetId, (Permill, Permill)> for Fees { fn get(a: &AssetId) -> (Permill, Permill) { let (x, y) = env(|e| e.cfg.fees[*a as usize]); (Permill::from_parts(x), Permill::from_parts(y)) } }
pub struct Oracle;
impl ExternalPriceProvider<AssetId, EmaPrice> for Oracle {
	type Error = DispatchError;
	fn get_price(a: AssetId, b: AssetId) -> Result<EmaPrice, DispatchError> {
		if a != HUB { return Err("wrong pair".into()) }
		match env(|e| e.oracle.get(&b).copied().flatten()) { Some((n, d)) => Ok(EmaPrice::new(n, d)), None => Err("no price".into()) }
	}
	fn get_price_weight() -> Weight { Weight::zero() }
}
/// account 3 may trade at any price
pub struct Free;
impl Contains<u64> for Free { fn contains(a: &u64) -> bool { *a == 3 } }
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(_: AssetId) -> bool { true }
	fn exists(a: AssetId) -> bool { a != 7 }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: AssetId) -> Option<u128> { reg_ed(a) }
}
fn reg_ed(a: AssetId) -> Option<u128> { match a { 5 => Some(0), 6 => None, 3 => Some(1_000_000), _ => Some(1) } }
type Ch = AssetStateChange<u128>;
#[derive(Clone, Debug, PartialEq)]
struct Info { a: AssetId, before: S, after: S, delta: Ch, safe: bool }
#[derive(Clone, Debug, PartialEq)]
enum Seen { Liq(Info), Trade(Info, Info), HubTrade(Info), Fee(u64, AssetId, u128) }
pub struct Spy;
fn info(i: AssetInfo<AssetId, u128>) -> Info { Info { a: i.asset_id, before: s(&i.before), after: s(&i.after), delta: i.delta_changes, safe: i.safe_withdrawal } }
fn note(x: Seen) -> Result<Weight, DispatchError> { env(|e| e.seen.push(x)); if faulty() { Err("injected".into()) } else { Ok(Weight::zero()) } }
impl OmnipoolHooks<RuntimeOrigin, u64, AssetId, u128> for Spy {
	type Error = DispatchError;
	fn on_liquidity_changed(_: RuntimeOrigin, a: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { note(Seen::Liq(info(a))) }
	fn on_trade(_: RuntimeOrigin, i: AssetInfo<AssetId, u128>, o: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { note(Seen::Trade(info(i), info(o))) }
	fn on_hub_asset_trade(_: RuntimeOrigin, a: AssetInfo<AssetId, u128>) -> Result<Weight, DispatchError> { note(Seen::HubTrade(info(a))) }
	fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
	fn on_trade_weight() -> Weight { Weight::zero() }
	fn on_trade_fee(from: u64, trader: u64, a: AssetId, x: u128) -> Result<u128, DispatchError> {
		env(|e| e.seen.push(Seen::Fee(trader, a, x)));
		if from != me() { return Err("wrong account".into()) }
		let (v, said) = taken(env(|e| e.take), x);
		<Tokens as MultiCurrency<u64>>::transfer(a, &from, &50, v)?;
		Ok(said)
	}
}
fn taken(t: Take, x: u128) -> (u128, u128) { match t { Take::Part(p) => { let v = A::Part(p.min(1_000_000)).of(x); (v, v) } Take::Over => (x + 1, x + 1), Take::Lie => (x / 2, x / 2 + 1) } }
impl pallet_omnipool::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = AssetId;
	type Currency = Tokens;
	type AuthorityOrigin = frame_system::EnsureRoot<u64>;
	type TechnicalOrigin = frame_system::EnsureSignedBy<TechSet, u64>;
	type AssetRegistry = Reg;
	type HdxAssetId = Hdx;
	type HubAssetId = Hub;
	type Fee = Fees;
	type MinWithdrawalFee = MinWd;
	type MinimumTradingLimit = MinTrade;
	type MinimumPoolLiquidity = MinLiq;
	type MaxInRatio = MaxIn;
	type MaxOutRatio = MaxOut;
	type PositionItemId = u32;
	type CollectionId = u32;
	type NFTCollectionId = Coll;
	type NFTHandler = Nft;
	type WeightInfo = ();
	type OmnipoolHooks = Spy;
	type PriceBarrier = (EnsurePriceWithin<u64, AssetId, Oracle, MaxDiff, Free>,);
	type ExternalPriceOracle = Oracle;
}
pub struct TechSet;
impl frame_support::traits::SortedMembers<u64> for TechSet { fn sorted_members() -> Vec<u64> { vec![9] } }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum By { Root, Tech, User }
impl By { fn o(&self) -> RuntimeOrigin { match self { By::Root => RawOrigin::Root.into(), By::Tech => RawOrigin::Signed(9).into(), By::User => RawOrigin::Signed(1).into() } } }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	AddToken { by: By, a: AssetId, price: u128, cap: u32, owner: u64 },
	RemoveToken { by: By, a: AssetId, to: u64 },
	Fund { who: u64, a: AssetId, x: u128 },
	Add { who: u64, a: AssetId, x: A, lim: Option<Lim>, fault: bool },
	Remove { who: Option<u64>, pos: u8, x: A, lim: Option<Lim>, fault: bool },
	Sacrifice { who: Option<u64>, pos: u8 },
	Sell { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	Buy { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, route: bool, fault: bool },
	State { by: By, a: AssetId, bits: u8 },
	Cap { by: By, a: AssetId, cap: u32 },
	Refund { by: By, a: AssetId, x: A, to: u64 },
	Withdraw { by: By, a: AssetId, x: A, price: u32, to: u64, fault: bool },
	Oracle { a: AssetId, ppm: Option<u32> },
	Take(Take),
	GivePos { pos: u8, to: u64 },
}
fn asset() -> impl Strategy<Value = AssetId> { prop_oneof![5 => Just(0u32), 6 => Just(2), 6 => Just(3), 4 => Just(4), 2 => Just(1), 1 => 5u32..8] }
fn two() -> impl Strategy<Value = (AssetId, AssetId)> {
	(prop_oneof![5 => 0usize..4, 1 => Just(4usize), 1 => 5usize..8], prop_oneof![5 => 0usize..4, 1 => Just(4usize), 1 => 5usize..8], prop::bool::weighted(0.05)).prop_map(|(i, j, same)| {
		let l = [0u32, 2, 3, 4, 1, 5, 6, 7];
		(l[i], if i == j && !same { l[(i + 1) % 4] } else { l[j] })
	})
}
fn who() -> impl Strategy<Value = u64> { prop_oneof![5 => 1u64..=3, 1 => Just(4u64)] }
fn by(main: By) -> impl Strategy<Value = By> { prop_oneof![12 => Just(main), 1 => Just(By::Root), 1 => Just(By::Tech), 1 => Just(By::User)] }
fn flt() -> impl Strategy<Value = bool> { prop::bool::weighted(0.04) }
fn own() -> impl Strategy<Value = Option<u64>> { prop_oneof![12 => Just(None), 1 => who().prop_map(Some)] }
fn ppm() -> impl Strategy<Value = u32> { prop_oneof![2 => Just(1_000_000u32), 4 => 950_000u32..1_050_000, 2 => 500_000u32..2_000_000, 1 => 1u32..10_000_000, 1 => Just(0u32)] }
fn cap() -> impl Strategy<Value = u32> { prop_oneof![4 => Just(1_000_000u32), 2 => 0u32..=1_000_000, 1 => 0u32..100_000] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		2 => (by(By::Root), asset(), mag(1, 1 << 100), cap(), who()).prop_map(|(by, a, price, cap, owner)| Op::AddToken { by, a, price, cap, owner }),
		2 => (by(By::Root), asset(), who()).prop_map(|(by, a, to)| Op::RemoveToken { by, a, to }),
		1 => (who(), asset(), mag(1, 1 << 70)).prop_map(|(who, a, x)| Op::Fund { who, a, x }),
		5 => (who(), asset(), small_amt(), prop::option::of(lim()), flt()).prop_map(|(who, a, x, lim, fault)| Op::Add { who, a, x, lim, fault }),
		6 => (own(), any::<u8>(), prop_oneof![3 => amt(), 2 => Just(A::Off(0))], prop::option::of(lim()), flt()).prop_map(|(who, pos, x, lim, fault)| Op::Remove { who, pos, x, lim, fault }),
		2 => (own(), any::<u8>()).prop_map(|(who, pos)| Op::Sacrifice { who, pos }),
		12 => (who(), two(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, (a, b), x, lim, route, fault)| Op::Sell { who, a, b, x, lim, route, fault }),
		12 => (who(), two(), small_amt(), lim(), any::<bool>(), flt()).prop_map(|(who, (a, b), x, lim, route, fault)| Op::Buy { who, a, b, x, lim, route, fault }),
		4 => (by(By::Tech), asset(), prop_oneof![4 => Just(15u8), 1 => Just(0u8), 1 => Just(12u8), 1 => Just(8u8), 1 => 0u8..16]).prop_map(|(by, a, bits)| Op::State { by, a, bits }),
		1 => (by(By::Tech), asset(), cap()).prop_map(|(by, a, cap)| Op::Cap { by, a, cap }),
		1 => (by(By::Root), asset(), amt(), who()).prop_map(|(by, a, x, to)| Op::Refund { by, a, x, to }),
		2 => (by(By::Root), asset(), amt(), ppm(), who(), flt()).prop_map(|(by, a, x, price, to, fault)| Op::Withdraw { by, a, x, price, to, fault }),
		3 => (asset(), prop::option::weighted(0.93, ppm())).prop_map(|(a, ppm)| Op::Oracle { a, ppm }),
		1 => prop_oneof![8 => (0u32..=1_000_000).prop_map(Take::Part), 2 => Just(Take::Part(1_000_000)), 1 => Just(Take::Over), 1 => Just(Take::Lie)].prop_map(Op::Take),
		1 => (any::<u8>(), who()).prop_map(|(pos, to)| Op::GivePos { pos, to }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, start: Vec<(u128, u128)>, ops: Vec<Op> }
fn fee() -> impl Strategy<Value = (u32, u32)> { let f = || prop_oneof![2 => Just(0u32), 5 => 0u32..50_000, 1 => 0u32..=1_000_000]; (f(), f()) }
fn config() -> impl Strategy<Value = Cfg> {
	(proptest::collection::vec(fee(), 8), prop_oneof![Just(0u32), 0u32..20_000], prop_oneof![Just(1u128), 1u128..5000], prop_oneof![Just(1u128), 1u128..100_000], 1u128..4, 1u128..4, prop_oneof![3 => Just(1_000_000u32), 3 => 0u32..100_000])
		.prop_map(|(fees, min_wd, min_trade, min_liq, max_in, max_out, max_diff)| Cfg { fees, min_wd, min_trade, min_liq, max_in, max_out, max_diff })
}
fn case(n: usize) -> impl Strategy<Value = Case> {
	let first = (prop_oneof![1 => mag(1 << 10, 1 << 90), 5 => mag(1 << 40, 1 << 75)], prop_oneof![1 => mag(1, 1 << 90), 5 => mag(1 << 45, 1 << 75)]);
	(config(), proptest::collection::vec(first, 3..=4), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, start, ops)| Case { cfg, start, ops })
}

/// what the pool reports about one asset
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct S { reserve: u128, hub: u128, shares: u128, proto: u128, cap: u128, bits: u8 }
fn s(x: &AssetReserveState<u128>) -> S { S { reserve: x.reserve, hub: x.hub_reserve, shares: x.shares, proto: x.protocol_shares, cap: x.cap, bits: x.tradable.bits() } }
impl S {
	fn m(&self) -> MR<u128> { MR { reserve: self.reserve, hub_reserve: self.hub, shares: self.shares, protocol_shares: self.proto } }
	fn apply(&self, d: &Ch) -> Option<S> { Some(S { reserve: up(self.reserve, &d.delta_reserve)?, hub: up(self.hub, &d.delta_hub_reserve)?, shares: up(self.shares, &d.delta_shares)?, proto: up(self.proto, &d.delta_protocol_shares)?, ..*self }) }
	fn can(&self, bit: u8) -> bool { self.bits & bit != 0 }
}
fn up(x: u128, d: &BalanceUpdate<u128>) -> Option<u128> { match d { BalanceUpdate::Increase(v) => x.checked_add(*v), BalanceUpdate::Decrease(v) => x.checked_sub(*v) } }
#[derive(Clone, Debug)]
struct Pos { a: AssetId, amount: u128, shares: u128, price: (u128, u128), owner: u64 }
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, assets: BTreeMap<AssetId, S>, debt: u128, hub_bits: u8, pos: BTreeMap<u32, Pos>, next: u32, oracle: Oracles, take: Take, stray: u128, cfg: Cfg }
const SELL: u8 = 1; const BUY: u8 = 2; const ADD: u8 = 4; const REMOVE: u8 = 8;
type E = pallet_omnipool::Event<Test>;
#[derive(Default)]
struct Out { seen: Vec<Seen>, ev: Vec<E>, trade: bool }
/// rational with 18 decimals, rounded down
fn fx(n: u128, d: u128) -> Option<u128> { md(n, 1_000_000_000_000_000_000, d) }
impl M {
	fn st(&self, a: AssetId) -> Option<S> { self.assets.get(&a).map(|s| S { reserve: self.l.get(&me(), a), ..*s }) }
	fn put(&mut self, a: AssetId, s: S) { self.assets.insert(a, S { reserve: 0, ..s }); }
	fn im(&self) -> I129<u128> { I129 { value: self.debt, negative: true } }
	fn hub(&self) -> u128 { self.l.get(&me(), HUB) }
	fn fees(&self, a: AssetId) -> (Permill, Permill) { let (x, y) = self.cfg.fees[a as usize]; (Permill::from_parts(x), Permill::from_parts(y)) }
	fn owe(&mut self, d: &BalanceUpdate<u128>) -> Option<()> {
		self.debt = match d { BalanceUpdate::Decrease(x) => self.debt.checked_add(*x)?, BalanceUpdate::Increase(x) => self.debt.checked_sub(*x)? };
		Some(())
	}
	fn hub_net(&mut self, plus: &[u128], minus: &[u128]) -> Option<()> {
		let (p, q) = (plus.iter().fold(b(0), |t, x| t + b(*x)), minus.iter().fold(b(0), |t, x| t + b(*x)));
		if p >= q { self.l.mint(&me(), HUB, small(p - q)?) } else { self.l.burn(&me(), HUB, small(q - p)?) }
	}
	fn barrier(&self, who: u64, a: AssetId, st: &S) -> Option<()> {
		if who == 3 { return Some(()) }
		let (n, d) = self.oracle.get(&a).copied().flatten()?;
		let (ext, spot) = (fx(n, d)?, fx(st.hub, st.reserve)?);
		let allowed = small(b(self.cfg.max_diff as u128) * b(1_000_000_000_000) * b(spot.checked_add(ext)?) / b(1_000_000_000_000_000_000))?;
		let diff = if spot > ext { spot - ext } else { ext - spot };
		if diff.checked_mul(2)? <= allowed { Some(()) } else { None }
	}
	fn pick(&self, i: u8) -> u32 { let v: Vec<u32> = self.pos.keys().copied().collect(); if v.is_empty() { 999 } else { let k = i as usize % (v.len() + 1); v.get(k).copied().unwrap_or(self.next) } }
	fn amount(&self, o: &Op) -> u128 {
		let r = |a: AssetId| self.l.get(&me(), a);
		match o {
			Op::Add { a, x, .. } | Op::Refund { a, x, .. } => x.of(r(*a)),
			Op::Sell { a, b, x, .. } => x.of(if *a == HUB { self.st(*b).map_or(1000, |s| s.hub) } else { r(*a) }),
			Op::Buy { b, x, .. } => x.of(r(*b)),
			Op::Remove { pos, x, .. } => x.of(self.pos.get(&self.pick(*pos)).map_or(0, |p| p.shares)),
			Op::Withdraw { a, x, .. } => x.of(self.assets.get(a).map_or(0, |s| s.proto)),
			_ => 0,
		}
	}
	/// the amount that slippage limits are about
	fn quote(&self, o: &Op, x: u128) -> Option<u128> {
		match *o {
			Op::Add { a, .. } => om::calculate_add_liquidity_state_changes(&self.st(a)?.m(), x, self.im(), self.hub()).map(|c| *c.asset.delta_shares),
			Op::Remove { pos, .. } => self.removal(self.pick(pos), x).map(|c| *c.0.asset.delta_reserve),
			Op::Sell { a, b, .. } if a == HUB => om::calculate_sell_hub_state_changes(&self.st(b)?.m(), x, self.fees(b).0, self.im(), self.hub()).map(|c| *c.asset.delta_reserve),
			Op::Sell { a, b, .. } => om::calculate_sell_state_changes(&self.st(a)?.m(), &self.st(b)?.m(), x, self.fees(b).0, self.fees(a).1, self.debt).map(|c| *c.asset_out.delta_reserve),
			Op::Buy { a, b, .. } if a == HUB => om::calculate_buy_for_hub_asset_state_changes(&self.st(b)?.m(), x, self.fees(b).0, self.im(), self.hub()).map(|c| *c.asset.delta_hub_reserve),
			Op::Buy { a, b, .. } => om::calculate_buy_state_changes(&self.st(a)?.m(), &self.st(b)?.m(), x, self.fees(b).0, self.fees(a).1, self.debt).map(|c| *c.asset_in.delta_reserve),
			_ => None,
		}
	}
	fn removal(&self, id: u32, x: u128) -> Option<(om::types::LiquidityStateChange<u128>, FixedU128)> {
		let p = self.pos.get(&id)?;
		let st = self.st(p.a)?;
		let (n, d) = self.oracle.get(&p.a).copied().flatten()?;
		if n == 0 { return None }
		let fee = om::calculate_withdrawal_fee(FixedU128::from_inner(fx(st.hub, st.reserve)?), FixedU128::from_inner(fx(n, d)?), Permill::from_parts(self.cfg.min_wd));
		Some((om::calculate_remove_liquidity_state_changes(&st.m(), x, &MP { amount: p.amount, shares: p.shares, price: p.price }, self.im(), self.hub(), fee)?, fee))
	}
	/// pay hub asset to `to`; an amount too small to be received is burnt
	fn pay_hub(&mut self, x: u128, to: u64) -> Option<()> {
		if self.l.mv(HUB, &me(), &to, x).is_none() { if x < HUB_ED { self.l.burn(&me(), HUB, x)? } else { return None } }
		Some(())
	}
	fn fee(&mut self, who: u64, a: AssetId, fee: u128, out: &mut Out) -> Option<()> {
		let may = fee.saturating_sub(1);
		out.seen.push(Seen::Fee(who, a, may));
		let (v, said) = taken(self.take, may);
		if v > may || v != said { return None }
		self.l.mv(a, &me(), &50, v)
	}
	fn step(&mut self, o: &Op, x: u128, limit: u128) -> Option<Out> {
		let c = self.cfg.clone();
		let mut out = Out::default();
		let bits = |b: u8| Tradability::from_bits(b).unwrap();
		match *o {
			Op::AddToken { by, a, price, cap, owner } => {
				if by != By::Root || self.assets.contains_key(&a) || a == 7 || price == 0 { return None }
				let amount = self.l.get(&me(), a);
				let ed = reg_ed(a)?;
				if ed == 0 || amount < ed.saturating_mul(20) { return None }
				let hub = md(price, amount, 1_000_000_000_000_000_000)?;
				let id = self.next;
				self.next += 1;
				self.pos.insert(id, Pos { a, amount, shares: amount, price: (price, 1_000_000_000_000_000_000), owner });
				let d = om::calculate_delta_imbalance(hub, self.im(), self.hub())?;
				self.owe(&BalanceUpdate::Decrease(d))?;
				self.l.mint(&me(), HUB, hub)?;
				let s = S { reserve: 0, hub, shares: amount, proto: 0, cap: cap as u128 * 1_000_000_000_000, bits: 15 };
				let r = self.l.get(&me(), a); // includes the hub asset just minted when that is the asset
				let delta = Ch { delta_reserve: BalanceUpdate::Increase(r), delta_hub_reserve: BalanceUpdate::Increase(hub), delta_shares: BalanceUpdate::Increase(amount), delta_protocol_shares: BalanceUpdate::Increase(0) };
				out.seen.push(Seen::Liq(Info { a, before: S { bits: 15, ..S::default() }, after: S { reserve: r, ..s }, delta, safe: false }));
				self.put(a, s);
				let price = FixedU128::from_inner(price);
				out.ev = vec![E::PositionCreated { position_id: id, owner, asset: a, amount, shares: amount, price }, E::TokenAdded { asset_id: a, initial_amount: amount, initial_price: price }];
			}
			Op::RemoveToken { by, a, to } => {
				let s = self.st(a)?;
				if by != By::Root || s.bits != 0 || s.shares != s.proto { return None }
				let d = om::calculate_delta_imbalance(s.hub, self.im(), self.hub())?;
				self.owe(&BalanceUpdate::Increase(d))?;
				self.l.burn(&me(), HUB, s.hub)?;
				self.l.mv(a, &me(), &to, s.reserve)?;
				self.assets.remove(&a);
				out.ev = vec![E::TokenRemoved { asset_id: a, amount: s.reserve, hub_withdrawn: s.hub }];
			}
			Op::Fund { who, a, x } => { self.l.mv(a, &who, &me(), x)?; if a == HUB { self.stray += x } }
			Op::Add { who, a, ref lim, fault, .. } => {
				let s0 = self.st(a)?;
				if x < c.min_liq || self.l.get(&who, a) < x || !s0.can(ADD) || fault { return None }
				self.barrier(who, a, &s0)?;
				let ch = om::calculate_add_liquidity_state_changes(&s0.m(), x, self.im(), self.hub())?;
				if lim.is_some() && *ch.asset.delta_shares < limit { return None }
				let s1 = s0.apply(&ch.asset)?;
				let total = self.hub().checked_add(*ch.asset.delta_hub_reserve)?;
				if fx(s1.hub, total)? > s1.cap { return None }
				let id = self.next;
				self.next += 1;
				let shares = *ch.asset.delta_shares;
				self.pos.insert(id, Pos { a, amount: x, shares, price: (s1.hub, s1.reserve), owner: who });
				self.l.mv(a, &who, &me(), x)?;
				self.owe(&ch.delta_imbalance)?;
				self.l.mint(&me(), HUB, *ch.asset.delta_hub_reserve)?;
				self.put(a, s1);
				out.seen.push(Seen::Liq(Info { a, before: s0, after: s1, delta: ch.asset, safe: false }));
				out.ev = vec![E::PositionCreated { position_id: id, owner: who, asset: a, amount: x, shares, price: FixedU128::from_inner(fx(s1.hub, s1.reserve)?) }, E::LiquidityAdded { who, asset_id: a, amount: x, position_id: id }];
			}
			Op::Remove { who, pos, ref lim, fault, .. } => {
				let id = self.pick(pos);
				let p = self.pos.get(&id)?.clone();
				let who = who.unwrap_or(p.owner);
				let s0 = self.st(p.a)?;
				if x == 0 || who != p.owner || p.shares < x || !s0.can(REMOVE) || fault { return None }
				let safe = s0.bits == 12 || s0.bits == 8;
				if !safe { self.barrier(who, p.a, &s0)?; }
				let (ch, fee) = self.removal(id, x)?;
				if lim.is_some() && *ch.asset.delta_reserve < limit { return None }
				let s1 = s0.apply(&ch.asset)?;
				let q = Pos { amount: up(p.amount, &ch.delta_position_reserve)?, shares: up(p.shares, &ch.delta_position_shares)?, ..p.clone() };
				self.l.mv(p.a, &me(), &who, *ch.asset.delta_reserve)?;
				self.owe(&ch.delta_imbalance)?;
				self.hub_net(&[ch.lp_hub_amount], &[*ch.asset.delta_hub_reserve])?;
				self.pay_hub(ch.lp_hub_amount, who)?;
				if q.shares == 0 { self.pos.remove(&id); out.ev.push(E::PositionDestroyed { position_id: id, owner: who }); } else {
					out.ev.push(E::PositionUpdated { position_id: id, owner: who, asset: p.a, amount: q.amount, shares: q.shares, price: FixedU128::from_inner(fx(q.price.0, q.price.1)?) });
					self.pos.insert(id, q);
				}
				self.put(p.a, s1);
				out.seen.push(Seen::Liq(Info { a: p.a, before: s0, after: s1, delta: ch.asset, safe }));
				out.ev.push(E::LiquidityRemoved { who, position_id: id, asset_id: p.a, shares_removed: x, fee });
			}
			Op::Sacrifice { who, pos } => {
				let id = self.pick(pos);
				let p = self.pos.get(&id)?.clone();
				if who.map_or(false, |w| w != p.owner) { return None }
				let s = self.assets.get_mut(&p.a)?;
				s.proto = s.proto.checked_add(p.shares)?;
				self.pos.remove(&id);
				out.ev = vec![E::PositionDestroyed { position_id: id, owner: p.owner }];
			}
			Op::Sell { who, a, b: bb, fault, .. } => {
				if a == bb || x < c.min_trade || self.l.get(&who, a) < x || bb == HUB || fault { return None }
				if a == HUB { return self.hub_trade(who, bb, x, limit, true, out) }
				let (i0, o0) = (self.st(a)?, self.st(bb)?);
				if !i0.can(SELL) || !o0.can(BUY) || x > i0.reserve / c.max_in { return None }
				let ch = om::calculate_sell_state_changes(&i0.m(), &o0.m(), x, self.fees(bb).0, self.fees(a).1, self.debt)?;
				let y = *ch.asset_out.delta_reserve;
				if y == 0 || y < limit || y > o0.reserve / c.max_out { return None }
				self.swap(who, a, bb, i0, o0, ch, true, &mut out)?;
			}
			Op::Buy { who, a, b: bb, fault, .. } => {
				if a == bb || x < c.min_trade || bb == HUB || fault { return None }
				if a == HUB { return self.hub_trade(who, bb, x, limit, false, out) }
				let (i0, o0) = (self.st(a)?, self.st(bb)?);
				if !i0.can(SELL) || !o0.can(BUY) || x > o0.reserve / c.max_out { return None }
				let ch = om::calculate_buy_state_changes(&i0.m(), &o0.m(), x, self.fees(bb).0, self.fees(a).1, self.debt)?;
				let y = *ch.asset_in.delta_reserve;
				if self.l.get(&who, a) < y || y > limit || y > i0.reserve / c.max_in { return None }
				self.swap(who, a, bb, i0, o0, ch, false, &mut out)?;
			}
			Op::State { by, a, bits: k } => {
				if by != By::Tech { return None }
				if a == HUB { if k & (ADD | REMOVE) != 0 { return None } self.hub_bits = k } else { self.assets.get_mut(&a)?.bits = k }
				out.ev = vec![E::TradableStateUpdated { asset_id: a, state: bits(k) }];
			}
			Op::Cap { by, a, cap } => {
				if by != By::Tech { return None }
				self.assets.get_mut(&a)?.cap = cap as u128 * 1_000_000_000_000;
				out.ev = vec![E::AssetWeightCapUpdated { asset_id: a, cap: Permill::from_parts(cap) }];
			}
			Op::Refund { by, a, to, .. } => {
				if by != By::Root || a == HUB || self.assets.contains_key(&a) { return None }
				self.l.mv(a, &me(), &to, x)?;
				out.ev = vec![E::AssetRefunded { asset_id: a, amount: x, recipient: to }];
			}
			Op::Withdraw { by, a, price, to, fault, .. } => {
				let s0 = self.st(a)?;
				if by != By::Root || x > s0.proto || fault { return None }
				let p = self.price_at(a, price);
				let ch = om::calculate_remove_liquidity_state_changes(&s0.m(), x, &MP { amount: 0, shares: x, price: p }, self.im(), self.hub(), FixedU128::from_inner(0))?;
				let mut s1 = s0.apply(&ch.asset)?;
				s1.proto = s1.proto.saturating_sub(x);
				self.l.mv(a, &me(), &to, *ch.asset.delta_reserve)?;
				self.owe(&ch.delta_imbalance)?;
				self.hub_net(&[ch.lp_hub_amount], &[*ch.asset.delta_hub_reserve])?;
				self.pay_hub(ch.lp_hub_amount, to)?;
				self.put(a, s1);
				out.ev = vec![E::ProtocolLiquidityRemoved { who: to, asset_id: a, amount: *ch.asset.delta_reserve, hub_amount: ch.lp_hub_amount, shares_removed: x }];
				out.seen.push(Seen::Liq(Info { a, before: s0, after: s1, delta: ch.asset, safe: true }));
			}
			Op::Oracle { a, ppm } => { let v = ppm.map(|p| { let s = self.st(a).unwrap_or_default(); (A::Part(p).of(s.hub.min(1 << 108)), s.reserve.max(1)) }); self.oracle.insert(a, v); }
			Op::Take(t) => self.take = t,
			Op::GivePos { pos, to } => { let id = self.pick(pos); self.pos.get_mut(&id)?.owner = to; }
		}
		Some(out)
	}
	fn price_at(&self, a: AssetId, ppm: u32) -> (u128, u128) { let s = self.st(a).unwrap_or_default(); (A::Part(ppm).of(s.hub), s.reserve) }
	fn swap(&mut self, who: u64, a: AssetId, bb: AssetId, i0: S, o0: S, ch: om::types::TradeStateChange<u128>, sell: bool, out: &mut Out) -> Option<()> {
		let (i1, o1) = (i0.apply(&ch.asset_in)?, o0.apply(&ch.asset_out)?);
		let (amount_in, amount_out) = (*ch.asset_in.delta_reserve, *ch.asset_out.delta_reserve);
		self.l.mv(a, &who, &me(), amount_in)?;
		self.l.mv(bb, &me(), &who, amount_out)?;
		// what leaves one asset's hub reserve and does not arrive in another is burnt, never minted
		let (hin, hout) = (*ch.asset_in.delta_hub_reserve, *ch.asset_out.delta_hub_reserve);
		let arrive = hout.checked_add(ch.hdx_hub_amount)?;
		self.l.burn(&me(), HUB, hin.checked_sub(arrive)?)?;
		self.owe(&ch.delta_imbalance)?;
		self.put(a, i1);
		self.put(bb, o1);
		out.seen.push(Seen::Trade(Info { a, before: i0, after: i1, delta: ch.asset_in.clone(), safe: false }, Info { a: bb, before: o0, after: o1, delta: ch.asset_out.clone(), safe: false }));
		if ch.hdx_hub_amount > 0 {
			let h0 = self.st(HDX)?;
			let h1 = S { hub: h0.hub.checked_add(ch.hdx_hub_amount)?, ..h0 };
			self.put(HDX, h1);
			out.seen.push(Seen::Liq(Info { a: HDX, before: h0, after: h1, delta: Ch { delta_hub_reserve: BalanceUpdate::Increase(ch.hdx_hub_amount), ..Default::default() }, safe: false }));
		}
		self.fee(who, bb, ch.fee.asset_fee, out)?;
		let (asset_fee_amount, protocol_fee_amount) = (ch.fee.asset_fee, ch.fee.protocol_fee);
		out.trade = true;
		out.ev = vec![if sell { E::SellExecuted { who, asset_in: a, asset_out: bb, amount_in, amount_out, hub_amount_in: hin, hub_amount_out: hout, asset_fee_amount, protocol_fee_amount } } else { E::BuyExecuted { who, asset_in: a, asset_out: bb, amount_in, amount_out, hub_amount_in: hin, hub_amount_out: hout, asset_fee_amount, protocol_fee_amount } }];
		Some(())
	}
	fn hub_trade(&mut self, who: u64, bb: AssetId, x: u128, limit: u128, sell: bool, mut out: Out) -> Option<Out> {
		let c = self.cfg.clone();
		let s0 = self.st(bb)?;
		if self.hub_bits & SELL == 0 || !s0.can(BUY) { return None }
		if sell && x > s0.hub / c.max_in || !sell && x > s0.reserve / c.max_out { return None }
		let f = self.fees(bb).0;
		let ch = if sell { om::calculate_sell_hub_state_changes(&s0.m(), x, f, self.im(), self.hub())? } else { om::calculate_buy_for_hub_asset_state_changes(&s0.m(), x, f, self.im(), self.hub())? };
		let (h, y) = (*ch.asset.delta_hub_reserve, *ch.asset.delta_reserve);
		if sell && (y < limit || y > s0.reserve / c.max_out) || !sell && (h > limit || h > s0.hub / c.max_in) { return None }
		let s1 = s0.apply(&ch.asset)?;
		self.l.mv(HUB, &who, &me(), h)?;
		self.l.mv(bb, &me(), &who, y)?;
		self.owe(&ch.delta_imbalance)?;
		self.put(bb, s1);
		self.fee(who, bb, ch.fee.asset_fee, &mut out)?;
		let (asset_fee_amount, protocol_fee_amount) = (ch.fee.asset_fee, ch.fee.protocol_fee);
		out.ev = vec![if sell { E::SellExecuted { who, asset_in: HUB, asset_out: bb, amount_in: h, amount_out: y, hub_amount_in: 0, hub_amount_out: 0, asset_fee_amount, protocol_fee_amount } } else { E::BuyExecuted { who, asset_in: HUB, asset_out: bb, amount_in: h, amount_out: y, hub_amount_in: 0, hub_amount_out: 0, asset_fee_amount, protocol_fee_amount } }];
		out.seen.push(Seen::HubTrade(Info { a: bb, before: s0, after: s1, delta: ch.asset, safe: false }));
		out.trade = true;
		Some(out)
	}
}

fn run(c: &Case, m: &mut Meter) -> Res {
	set_fault(false);
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { hub_bits: SELL, cfg: c.cfg.clone(), ..Default::default() };
	model.l.eds.insert(HUB, HUB_ED);
	model.l.white.insert(me());
	let mut bal = vec![];
	for w in 1..=3u64 { for a in [0u32, 1, 2, 3, 4, 5, 6, 7] { let v = 1u128 << (97 + w); bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	env(|e| *e = Env { cfg: c.cfg.clone(), ..Default::default() });
	let accounts: Vec<u64> = vec![1, 2, 3, 4, 9, 50, me()];
	let assets: Vec<AssetId> = (0..8).collect();
	let mut ops = vec![];
	for (i, (x, h)) in c.start.iter().enumerate() {
		let a = [0u32, 2, 3, 4][i];
		ops.push(Op::Fund { who: 1, a, x: *x });
		ops.push(Op::AddToken { by: By::Root, a, price: md(*h, 1_000_000_000_000_000_000, *x).unwrap_or(1).max(1), cap: 1_000_000, owner: 1 + i as u64 % 3 });
		ops.push(Op::Oracle { a, ppm: Some(1_000_000) });
	}
	ops.extend(c.ops.iter().cloned());
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			let exact = model.quote(o, x);
			let limit = match o {
				Op::Add { lim: Some(l), .. } | Op::Remove { lim: Some(l), .. } => l.min(exact),
				Op::Sell { lim, .. } => lim.min(exact),
				Op::Buy { lim, .. } => lim.max(exact),
				_ => 0,
			};
			let mut next = model.clone();
			let want = next.step(o, x, limit);
			if let (Some(_), Some(e)) = (&want, exact) {
				let q = match o { Op::Sell { a, b, .. } => Some(Omnipool::calculate_sell(PoolType::Omnipool, *a, *b, x)), Op::Buy { a, b, .. } => Some(Omnipool::calculate_buy(PoolType::Omnipool, *a, *b, x)), _ => None };
				if let Some(q) = q { ensure_that!(q.as_ref().ok() == Some(&e), "{}: quoted {q:?}, executes {e}", what()); }
			}
			if let Op::Sell { a, b, .. } | Op::Buy { a, b, .. } = *o { router_view(&model, a, b, x).map_err(|e| format!("{}: {e}", what()))?; }
			env(|e| { e.seen.clear(); e.oracle = model.oracle.clone(); e.take = model.take });
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let owner = |w: Option<u64>, pos: u8| w.unwrap_or_else(|| model.pos.get(&model.pick(pos)).map_or(1, |p| p.owner));
			set_fault(matches!(o, Op::Add { fault: true, .. } | Op::Remove { fault: true, .. } | Op::Sell { fault: true, .. } | Op::Buy { fault: true, .. } | Op::Withdraw { fault: true, .. }));
			let flat = |r: Result<(), hydradx_traits::router::ExecutorError<DispatchError>>| r.map_err(|e| match e { hydradx_traits::router::ExecutorError::Error(e) => e, _ => "not supported".into() });
			let got = atomic(what, || match *o {
				Op::AddToken { by, a, price, cap, owner } => Omnipool::add_token(by.o(), a, FixedU128::from_inner(price), Permill::from_parts(cap), owner),
				Op::RemoveToken { by, a, to } => Omnipool::remove_token(by.o(), a, to),
				Op::Fund { who, a, x } => Tokens::transfer(sg(who), me(), a, x),
				Op::Add { who, a, ref lim, .. } => if lim.is_some() { Omnipool::add_liquidity_with_limit(sg(who), a, x, limit) } else { Omnipool::add_liquidity(sg(who), a, x) },
				Op::Remove { who, pos, ref lim, .. } => { let (w, p) = (owner(who, pos), model.pick(pos)); if lim.is_some() { Omnipool::remove_liquidity_with_limit(sg(w), p, x, limit) } else { Omnipool::remove_liquidity(sg(w), p, x) } }
				Op::Sacrifice { who, pos } => Omnipool::sacrifice_position(sg(owner(who, pos)), model.pick(pos)),
				Op::Sell { who, a, b, route, .. } => if route { flat(<Omnipool as TradeExecution<_, _, _, _>>::execute_sell(sg(who), PoolType::Omnipool, a, b, x, limit)) } else { Omnipool::sell(sg(who), a, b, x, limit) },
				Op::Buy { who, a, b, route, .. } => if route { flat(<Omnipool as TradeExecution<_, _, _, _>>::execute_buy(sg(who), PoolType::Omnipool, a, b, x, limit)) } else { Omnipool::buy(sg(who), b, a, x, limit) },
				Op::State { by, a, bits } => Omnipool::set_asset_tradable_state(by.o(), a, Tradability::from_bits(bits).unwrap()),
				Op::Cap { by, a, cap } => Omnipool::set_asset_weight_cap(by.o(), a, Permill::from_parts(cap)),
				Op::Refund { by, a, to, .. } => Omnipool::refund_refused_asset(by.o(), a, x, to),
				Op::Withdraw { by, a, price, to, .. } => Omnipool::withdraw_protocol_liquidity(by.o(), a, x, model.price_at(a, price), to),
				Op::Oracle { .. } | Op::Take(_) => Ok(()),
				Op::GivePos { pos, to } => Nft::transfer(&1337, &model.pick(pos), &to),
			})?;
			set_fault(false);
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let before = std::mem::replace(&mut model, next);
			ensure_eq!(env(|e| std::mem::take(&mut e.seen)), out.seen, "{}: reported to hooks", what());
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Omnipool(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out.ev, "{}: events", what());
			match o { Op::Sell { a, .. } | Op::Buy { a, .. } => { m.nontrivial(); m.label(if *a == HUB { "hub trade" } else { "trade" }) } Op::Add { .. } => { m.nontrivial(); m.label("add") } Op::Remove { .. } => m.label("remove"), Op::Sacrifice { .. } => m.label("sacrifice"), Op::Withdraw { .. } => m.label("withdraw protocol"), Op::RemoveToken { .. } => m.label("remove token"), Op::Refund { .. } => m.label("refund"), _ => {} }
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			ensure_eq!(Omnipool::current_imbalance(), SimpleImbalance { value: model.debt, negative: true }, "{}: imbalance", what());
			ensure_eq!(Omnipool::next_position_id(), model.next, "{}: next position", what());
			for bit in [SELL, BUY, ADD, REMOVE] { ensure_eq!(Omnipool::is_hub_asset_allowed(Tradability::from_bits(bit).unwrap()), model.hub_bits & bit != 0, "{}: hub asset state", what()); }
			let mut hubs = b(0);
			for a in &assets {
				let got = Omnipool::load_asset_state(*a).ok().map(|x| s(&x));
				ensure_eq!(got, model.st(*a), "{}: state of {a}", what());
				let Some(t) = got else { continue };
				hubs += b(t.hub);
				let held: u128 = model.pos.values().filter(|p| p.a == *a).map(|p| p.shares).sum();
				ensure_eq!(t.shares, held + t.proto, "{}: shares of {a} are positions plus protocol", what());
				if out.trade && *a != HUB { let t0 = before.st(*a).unwrap(); ensure_that!(b(t.hub) * b(t.reserve + model.l.get(&50, *a) - before.l.get(&50, *a)) >= b(t0.hub) * b(t0.reserve), "{}: product of {a} fell", what()); }
			}
			if !model.assets.contains_key(&HUB) { ensure_eq!(hubs + b(model.stray), b(model.hub()), "{}: hub asset held is the sum of hub reserves", what()); }
			let mut ids: BTreeSet<u32> = model.pos.keys().copied().collect();
			ids.extend(before.pos.keys());
			for id in ids {
				let want = model.pos.get(&id).map(|p| Position { asset_id: p.a, amount: p.amount, shares: p.shares, price: p.price });
				ensure_eq!(Omnipool::positions(id), want, "{}: position {id}", what());
				ensure_eq!(Nft::owner(&1337, &id), model.pos.get(&id).map(|p| p.owner), "{}: owner of position {id}", what());
			}
		}
		Ok(())
	})
}
/// The pool as the router sees it: price and depth of a pair.
fn router_view(model: &M, a: AssetId, b: AssetId, x: u128) -> Res {
	let (sa, sb) = (model.st(a), model.st(b));
	let price = if b == HUB { None } else if a == HUB { sb.and_then(|s| routed::inverse(om::calculate_lrna_spot_price(&s.m(), Some(model.fees(b).0))?)) }
		else { sa.zip(sb).and_then(|(i, o)| routed::inverse(om::calculate_spot_price(&i.m(), &o.m(), Some((model.fees(a).1, model.fees(b).0)))?)) };
	ensure_eq!(routed::value(Omnipool::calculate_spot_price_with_fee(PoolType::Omnipool, a, b))?, price, "price with fee");
	use kit::b as b_;
	// the price without fees
	let one = 1_000_000_000_000_000_000u128;
	let (ra, rb) = (sa.map(|s| (s.reserve, s.hub)), sb.map(|s| (s.reserve, s.hub)));
	let f = |n: u128, d: u128| if d == 0 { None } else { quo(b_(n) * b_(one), b_(d)) };
	let want = if a == b { Some(one) } else if a == HUB { rb.and_then(|(r, h)| f(h, r)) } else if b == HUB { ra.and_then(|(r, h)| f(r, h)) } else { ra.zip(rb).and_then(|((r, h), (s, g))| quo(b_(f(r, h)?) * b_(f(g, s)?), b_(one))) };
	let got = no_panic(|| <Omnipool as hydradx_traits::pools::SpotPriceProvider<AssetId>>::spot_price(a, b))?.map(|p| p.into_inner());
	match (got, want) { (Some(g), Some(w)) => ensure_that!(g.abs_diff(w) <= 2, "price of {a} in {b}: {g}, must be {w}"), (g, w) => ensure_eq!(g, w, "price of {a} in {b}") }
	ensure_eq!(<Omnipool as hydradx_traits::pools::SpotPriceProvider<AssetId>>::pair_exists(a, b), sa.is_some() && sb.is_some(), "existence of {a}/{b}");
	ensure_eq!(routed::value(Omnipool::get_liquidity_depth(PoolType::Omnipool, a, b))?, sa.map(|s| s.reserve), "depth");
	if b == HUB { ensure_eq!((routed::value(Omnipool::calculate_sell(PoolType::Omnipool, a, b, x))?, routed::value(Omnipool::calculate_buy(PoolType::Omnipool, a, b, x))?), (None, None), "quote for hub asset"); }
	routed::only_own::<RuntimeOrigin, Omnipool>(PoolType::Omnipool, || RawOrigin::Signed(1).into(), a, b, x)
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("token registry, NFT collection, oracle and hooks are stand-ins; amounts are those of hydra-dx-math (decided by C01-C03)");
	c.check("histories", "histories of listing, liquidity, trades, administration, oracle moves, fee takers and failing hooks against an exact ledger; non-trivial: a trade or added liquidity", 50_000, 1_500_000, || case(28), run);
	std::process::exit(c.finish());
}
