use codec::Decode;
use frame_support::storage::with_transaction_unchecked;
use frame_support::traits::{Hooks, UnfilteredDispatchable};
use frame_system::RawOrigin;
use hydradx_traits::router::*;
use kit::fakes::*;
use kit::*;
use orml_traits::NamedMultiReservableCurrency;
use pallet_otc::{Order, NAMED_RESERVE_ID};
use pallet_otc_settlements::{Call, Event as E};
use sp_core::offchain::{PoolState, TestTransactionPoolExt, TransactionPoolExt};
use sp_runtime::transaction_validity::{TransactionSource, ValidTransaction};
use sp_runtime::traits::{AccountIdConversion, ValidateUnsigned};
use sp_runtime::TransactionOutcome;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, OTC: pallet_otc, Settle: pallet_otc_settlements });
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
enum Fault { #[default] None, Fail, Keep(u8), Gift(u32), NoPrice }
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { eds: [u128; 3], mult: u8, fee: u32, min_profit: u32, precision: u128, min_trade: u128, iters: u32 }
#[derive(Default)]
struct W { cfg: Cfg, routes: [bool; 3], fault: Fault }
thread_local! { static WORLD: RefCell<W> = RefCell::new(W::default()); }
fn cfg() -> Cfg { WORLD.with(|c| c.borrow().cfg) }
fn fault() -> Fault { WORLD.with(|c| c.borrow().fault) }
orml_traits::parameter_type_with_key! { pub Eds: |a: u32| -> u128 { cfg().eds[*a as usize % 3] }; }
parameter_types! {
	pub Mult: u8 = cfg().mult;
	pub MinProfit: Perbill = Perbill::from_parts(cfg().min_profit);
	pub Precision: FixedU128 = FixedU128::from_inner(cfg().precision);
	pub MinTrade: u128 = cfg().min_trade;
	pub Iters: u32 = cfg().iters;
	pub Receiver: u64 = 9;
}
system_config!(Test, u64, ());
tokens_config!(Test, Eds, Nothing, ());
impl pallet_otc::Config for Test {
	type AssetId = AssetId;
	type AssetRegistry = Registry;
	type Currency = Tokens;
	type RuntimeEvent = RuntimeEvent;
	type ExistentialDeposits = Eds;
	type ExistentialDepositMultiplier = Mult;
	type WeightInfo = ();
}
impl pallet_otc_settlements::Config for Test {
	type Currency = Tokens;
	type RuntimeEvent = RuntimeEvent;
	type Router = Pools;
	type ProfitReceiver = Receiver;
	type MinProfitPercentage = MinProfit;
	type PricePrecision = Precision;
	type MinTradingLimit = MinTrade;
	type MaxIterations = Iters;
	type WeightInfo = ();
	type RouterWeightInfo = ();
}
type Xt = sp_runtime::testing::TestXt<RuntimeCall, ()>;
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test where RuntimeCall: From<C> { type OverarchingCall = RuntimeCall; type Extrinsic = Xt; }

// ---- the market: three constant product pools behind a router, shared by the model and the code ----
trait Books { fn get(&self, w: u64, a: AssetId) -> u128; fn mv(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Option<()>; }
struct Real;
impl Books for Real {
	fn get(&self, w: u64, a: AssetId) -> u128 { <Tokens as MultiCurrency<u64>>::free_balance(a, &w) }
	fn mv(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Option<()> { <Tokens as MultiCurrency<u64>>::transfer(a, &f, &t, x).ok() }
}
impl Books for Ledger {
	fn get(&self, w: u64, a: AssetId) -> u128 { Ledger::get(self, &w, a) }
	fn mv(&mut self, a: AssetId, f: u64, t: u64, x: u128) -> Option<()> { Ledger::mv(self, a, &f, &t, x) }
}
fn pool(a: AssetId, b: AssetId) -> u64 { 100 + (a + b) as u64 }
fn hop(asset_in: AssetId, asset_out: AssetId) -> Trade<AssetId> { Trade { pool: PoolType::XYK, asset_in, asset_out } }
fn route(a: AssetId, b: AssetId, long: bool) -> Vec<Trade<AssetId>> { let c = 3u32.wrapping_sub(a).wrapping_sub(b) % 3; if long && c != a && c != b { vec![hop(a, c), hop(c, b)] } else { vec![hop(a, b)] } }
fn known(a: AssetId, b: AssetId) -> Vec<Trade<AssetId>> { route(a, b, WORLD.with(|w| w.borrow().routes[(a + b) as usize % 3])) }
fn sell(k: &mut dyn Books, who: u64, x: u128, min: u128, r: &[Trade<AssetId>]) -> Option<()> {
	let (mut at, mut amount) = (who, x);
	let mut paid = x;
	if let Fault::Fail = fault() { return None }
	if let Fault::Keep(n) = fault() { paid = paid.saturating_sub(n as u128); }
	for t in r {
		let p = pool(t.asset_in, t.asset_out);
		let (i, o) = (k.get(p, t.asset_in), k.get(p, t.asset_out));
		let net = amount - quo(b(amount) * b(cfg().fee as u128), b(1_000_000))?;
		let out = quo(b(o) * b(net), b(i) + b(net))?;
		k.mv(t.asset_in, at, p, if at == who { paid } else { amount })?;
		at = p;
		amount = out;
	}
	if amount < min { return None }
	if let Fault::Gift(n) = fault() { amount = amount.checked_add(n as u128)?; }
	k.mv(r.last()?.asset_out, at, who, amount)
}
fn spot(k: &dyn Books, r: &[Trade<AssetId>]) -> Option<u128> {
	if let Fault::NoPrice = fault() { return None }
	let mut p = ONE_E18;
	for t in r {
		let a = pool(t.asset_in, t.asset_out);
		let s = quo(b(k.get(a, t.asset_in)) * b(ONE_E18) * b(1_000_000), b(k.get(a, t.asset_out)) * b(1_000_000 - cfg().fee as u128))?;
		p = quo(b(p) * b(s), b(ONE_E18))?;
	}
	Some(p)
}
const ONE_E18: u128 = 1_000_000_000_000_000_000;
pub struct Pools;
impl RouteProvider<AssetId> for Pools { fn get_route(p: AssetPair<AssetId>) -> Vec<Trade<AssetId>> { known(p.asset_in, p.asset_out) } }
impl RouteSpotPriceProvider<AssetId> for Pools { fn spot_price_with_fee(r: &[Trade<AssetId>]) -> Option<FixedU128> { spot(&Real, r).map(FixedU128::from_inner) } }
impl RouterT<RuntimeOrigin, AssetId, Balance, Trade<AssetId>, AmountInAndOut<Balance>> for Pools {
	fn sell(o: RuntimeOrigin, a: AssetId, z: AssetId, x: Balance, min: Balance, r: Vec<Trade<AssetId>>) -> DispatchResult {
		let who = frame_system::ensure_signed(o)?;
		frame_support::storage::with_storage_layer(|| {
			if r.first().map(|t| t.asset_in) != Some(a) || r.last().map(|t| t.asset_out) != Some(z) { return Err(DispatchError::Other("route")) }
			sell(&mut Real, who, x, min, &r).ok_or(DispatchError::Other("market"))
		})
	}
	fn buy(_: RuntimeOrigin, _: AssetId, _: AssetId, _: Balance, _: Balance, _: Vec<Trade<AssetId>>) -> DispatchResult { Err(DispatchError::Other("none")) }
	fn calculate_sell_trade_amounts(_: &[Trade<AssetId>], _: Balance) -> Result<Vec<AmountInAndOut<Balance>>, DispatchError> { Err(DispatchError::Other("none")) }
	fn calculate_buy_trade_amounts(_: &[Trade<AssetId>], _: Balance) -> Result<Vec<AmountInAndOut<Balance>>, DispatchError> { Err(DispatchError::Other("none")) }
	fn set_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> frame_support::dispatch::DispatchResultWithPostInfo { Ok(().into()) }
	fn force_insert_route(_: RuntimeOrigin, _: AssetPair<AssetId>, _: Vec<Trade<AssetId>>) -> frame_support::dispatch::DispatchResultWithPostInfo { Ok(().into()) }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// an order whose price is better than the market by `gain` ppm
	Place { who: u64, a: AssetId, z: AssetId, x: u32, gain: i32, part: bool },
	Cancel { id: u32 },
	Trade { who: u64, a: AssetId, z: AssetId, x: A },
	Donate { a: AssetId, x: A },
	/// `right`: with the amount the worker would find, shifted
	Settle { who: Option<u64>, id: u32, x: A, right: bool, long: Option<bool> },
	Worker { later: u8, validator: bool, run: bool },
	Route { pair: u8, long: bool },
	Faulty(Fault),
}
fn who() -> impl Strategy<Value = u64> { 1u64..=4 }
fn pr() -> impl Strategy<Value = (AssetId, AssetId)> { prop::sample::select(vec![(0u32, 1u32), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]) }
fn faults() -> impl Strategy<Value = Fault> { prop_oneof![6 => Just(Fault::None), 1 => Just(Fault::Fail), 1 => (1u8..4).prop_map(Fault::Keep), 2 => (1u32..100_000).prop_map(Fault::Gift), 1 => Just(Fault::NoPrice)] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		7 => (who(), pr(), 1u32..200_000, prop_oneof![6 => 0i32..400_000, 1 => -200_000i32..0, 1 => 400_000i32..5_000_000], prop::bool::weighted(0.65)).prop_map(|(who, (a, z), x, gain, part)| Op::Place { who, a, z, x, gain, part }),
		1 => (0u32..6).prop_map(|id| Op::Cancel { id }),
		2 => (who(), pr(), small_amt()).prop_map(|(who, (a, z), x)| Op::Trade { who, a, z, x }),
		1 => (0u32..3, prop_oneof![mag(1, 1 << 40).prop_map(A::Abs), Just(A::Part(10))]).prop_map(|(a, x)| Op::Donate { a, x }),
		7 => (prop::option::weighted(0.7, who()), 0u32..6, prop_oneof![4 => Just(A::Off(0)), 2 => (-3i16..=3).prop_map(A::Off), 2 => (900_000u32..1_000_100).prop_map(A::Part), 1 => amt()], prop::bool::weighted(0.8), prop::option::weighted(0.1, any::<bool>())).prop_map(|(who, id, x, right, long)| Op::Settle { who, id, x, right, long }),
		5 => (prop::sample::select(vec![0u8, 1, 1, 1, 2, 3]), prop::bool::weighted(0.95), prop::bool::weighted(0.7)).prop_map(|(later, validator, run)| Op::Worker { later, validator, run }),
		1 => (0u8..3, any::<bool>()).prop_map(|(pair, long)| Op::Route { pair, long }),
		1 => faults().prop_map(Op::Faulty),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, pools: [(u128, u128); 3], routes: [bool; 3], ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	let c = (prop::array::uniform3(prop_oneof![3 => Just(1u128), 2 => 1u128..10_000, 1 => mag(1, 1 << 40)]), 0u8..10, prop_oneof![1 => Just(0u32), 3 => 1u32..20_000], prop_oneof![1 => Just(0u32), 3 => Just(10_000u32), 1 => 0u32..100_000_000], prop_oneof![3 => Just(ONE_E18 / 1_000_000), 2 => mag(ONE_E18 / 10_000_000, ONE_E18 / 10), 1 => mag(0, ONE_E18 * 2)], mag(1, 1 << 40), prop_oneof![3 => Just(40u32), 1 => 1u32..40])
		.prop_map(|(eds, mult, fee, min_profit, precision, min_trade, iters)| Cfg { eds, mult, fee, min_profit, precision, min_trade, iters });
	let p = (prop_oneof![6 => mag(1 << 50, 1 << 88), 1 => mag(1 << 10, 1 << 26)], -20i32..20).prop_map(|(x, d)| (x, if d < 0 { x >> (-d) } else { x << d.min(6) }));
	(c, prop::array::uniform3(p), any::<[bool; 3]>(), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, pools, routes, mut ops)| {
		let extra: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Place { .. })).take(2).cloned().collect();
		for e in extra { ops.insert(0, e); }
		Case { cfg, pools, routes, ops }
	})
}
type O = Order<u64, AssetId>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum No { High, Low, Other }
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, orders: BTreeMap<u32, O>, next: u32, pot: u64, list: Vec<u32>, last: u64, block: u64 }
impl M {
	fn smallest(&self, a: AssetId) -> u128 { self.l.ed(a) * cfg().mult as u128 }
	fn lock(&mut self) {
		let mut l = BTreeMap::new();
		for o in self.orders.values() { *l.entry((o.owner, o.asset_out)).or_insert(0) += o.amount_out; }
		self.l.locks = l.into_iter().filter(|x| x.1 > 0).collect();
	}
	fn id(&self, id: u32) -> u32 { let n = self.orders.len() as u32; if n == 0 || id == 5 { self.next.saturating_sub(id % 3) } else { *self.orders.keys().nth((id % n) as usize).unwrap() } }
	fn price(o: &O) -> Option<u128> { if o.amount_in == 0 { None } else { quo(b(o.amount_out) * b(ONE_E18), b(o.amount_in)) } }
	/// settle on these books; the profit, or the reason why not
	fn settle(&mut self, id: u32, x: u128, r: &[Trade<AssetId>]) -> Result<u128, No> {
		let o = self.orders.get(&id).ok_or(No::Other)?.clone();
		let (a, z) = (o.asset_in, o.asset_out);
		let whole = x == o.amount_in;
		if !o.partially_fillable && !whole { return Err(No::Other) }
		if r != known(z, a) { return Err(No::Other) }
		let pot = self.pot;
		let (a0, z0) = (self.l.get(&pot, a), self.l.get(&pot, z));
		if a0.checked_add(x).map_or(true, |n| n < self.l.ed(a)) { return Err(No::Other) }
		self.l.mint(&pot, a, x).ok_or(No::Other)?;
		let wanted = Self::price(&o).ok_or(No::Other)?;
		let y = if whole { o.amount_out } else { quo(b(o.amount_out) * b(x), b(o.amount_in)).ok_or(No::Other)? };
		if whole { self.orders.remove(&id); } else {
			let e = self.orders.get_mut(&id).unwrap();
			e.amount_in = e.amount_in.checked_sub(x).ok_or(No::Other)?;
			e.amount_out = e.amount_out.checked_sub(y).ok_or(No::Other)?;
			let (i, u) = (e.amount_in, e.amount_out);
			if i < self.smallest(a) || u < self.smallest(z) { return Err(No::Other) }
		}
		self.l.mv(a, &pot, &o.owner, x).ok_or(No::Other)?;
		self.lock();
		self.l.mv(z, &o.owner, &pot, y).ok_or(No::Other)?;
		sell(&mut self.l, pot, y, 1, r).ok_or(No::High)?;
		let now = spot(&self.l, r).ok_or(No::Other)?;
		if o.partially_fillable {
			let tolerance = quo(b(cfg().precision) * b(wanted), b(ONE_E18)).ok_or(No::Other)?;
			if now > wanted && now - wanted > tolerance { return Err(No::High) }
			if now < wanted && wanted - now > tolerance { return Err(No::Low) }
		}
		let profit = self.l.get(&pot, a).checked_sub(a0).and_then(|v| v.checked_sub(x)).ok_or(No::Other)?;
		if b(profit) < b(o.amount_in) * b(cfg().min_profit as u128) / b(1_000_000_000) { return Err(No::Low) }
		self.l.mv(a, &pot, &9, profit).ok_or(No::Other)?;
		self.l.burn(&pot, a, x).ok_or(No::Other)?;
		if self.l.get(&pot, a) != a0 || self.l.get(&pot, z) != z0 { return Err(No::Other) }
		Ok(profit)
	}
	/// the amount found by halving, applied to these books
	fn find(&mut self, id: u32) -> Option<u128> {
		let o = self.orders.get(&id)?.clone();
		let r = known(o.asset_out, o.asset_in);
		let (mut x, mut up, mut down) = (o.amount_in, o.amount_in, cfg().min_trade);
		for _ in 0..if o.partially_fillable { cfg().iters } else { 1 } {
			let mut n = self.clone();
			match n.settle(id, x, &r) {
				Ok(_) => { *self = n; return Some(x) }
				Err(No::High) => up = x,
				Err(No::Low) => down = x,
				Err(No::Other) => return None,
			}
			if up == down { return None }
			x = up.checked_add(down)? / 2;
		}
		None
	}
	fn worker(&mut self, order: &[u32]) -> Vec<(u32, u128)> {
		if self.block > self.last {
			self.last = self.block;
			let mut l: Vec<(u32, u128)> = order.iter().filter_map(|id| {
				let o = &self.orders[id];
				let (p, q) = (Self::price(o)?, spot(&self.l, &known(o.asset_out, o.asset_in))?);
				if q <= p { Some((*id, p - q)) } else { None }
			}).collect();
			l.sort_by(|x, y| y.1.cmp(&x.1));
			self.list = l.into_iter().map(|x| x.0).collect();
		}
		let mut books = self.clone();
		self.list.clone().into_iter().filter_map(|id| books.find(id).map(|x| (id, x))).collect()
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	WORLD.with(|w| *w.borrow_mut() = W { cfg: c.cfg, routes: c.routes, fault: Fault::None });
	set_registry(&[(0, Some(12), 1, true), (1, Some(12), 1, true), (2, Some(12), 1, true)]);
	let pot: u64 = frame_support::PalletId(*b"otcsettl").into_account_truncating();
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { pot, ..Default::default() };
	for a in 0..3 { model.l.eds.insert(a, c.cfg.eds[a as usize]); }
	let mut bal = vec![];
	for w in 1..=4u64 { for a in 0..3u32 { bal.push((w, a, 1u128 << 94)); } }
	for (i, (x, y)) in c.pools.iter().enumerate() { let (a, z) = [(0, 1), (0, 2), (1, 2)][i]; bal.push((pool(a, z), a, (*x).max(1 << 45))); bal.push((pool(a, z), z, (*y).max(1 << 45))); }
	for (w, a, v) in &bal { model.l.mint(w, *a, *v); }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, 4, 9, pot, pool(0, 1), pool(0, 2), pool(1, 2)];
	let mut ext = TestExternalities::new(st);
	let (txs, txs_state) = TestTransactionPoolExt::new();
	ext.register_extension(TransactionPoolExt::new(txs));
	ext.execute_with(|| {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			step(o, &what, &mut model, m, &txs_state)?;
			same_ledger(&model.l, &accounts, &[0, 1, 2], |a, w| <Tokens as MultiCurrency<u64>>::total_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			let all: BTreeMap<u32, O> = pallet_otc::Orders::<Test>::iter().collect();
			ensure_eq!(all, model.orders, "{}: orders", what());
			for w in 1..=4u64 { for a in 0..3 { ensure_eq!(Tokens::reserved_balance_named(&NAMED_RESERVE_ID, a, &w), model.l.locked(&w, a), "{}: reserve of {w} in {a}", what()); } }
		}
		Ok(())
	})
}
fn executed(ev: Vec<RuntimeEvent>) -> Vec<E<Test>> { ev.into_iter().filter_map(|e| if let RuntimeEvent::Settle(e) = e { Some(e) } else { None }).collect() }
fn settled(what: &dyn Fn() -> String, m: &mut Meter, old: &M, new: &M, id: u32, x: u128, profit: u128) -> Res {
	let o = &old.orders[&id];
	m.nontrivial();
	m.label(if !o.partially_fillable { "whole order" } else if new.orders.contains_key(&id) { "partly filled" } else { "filled" });
	if profit == 0 { m.label("no profit") }
	// nothing is made or lost on the way
	ensure_eq!(executed(take_events!(Test)), vec![E::Executed { asset_id: o.asset_in, profit }], "{}: events", what());
	for a in 0..3 {
		ensure_eq!(Tokens::total_issuance(a), old.l.total(a), "{}: issuance of {a}", what());
		ensure_eq!(Real.get(old.pot, a), old.l.get(&old.pot, a), "{}: pallet's balance of {a}", what());
	}
	ensure_eq!(Real.get(9, o.asset_in), old.l.get(&9, o.asset_in) + profit, "{}: profit", what());
	if x == 0 { m.label("nothing") }
	Ok(())
}
fn step(op: &Op, what: &dyn Fn() -> String, model: &mut M, m: &mut Meter, txs: &std::sync::Arc<parking_lot::RwLock<PoolState>>) -> Res {
	let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
	System::reset_events();
	match *op {
		Op::Place { who, a, z, x, gain, part } => {
			let r = known(z, a);
			let depth = model.l.get(&pool(r.last().unwrap().asset_in, a), a);
			let x = md(depth, x as u128, 1_000_000).unwrap().max(model.smallest(a)).max(1);
			let f = fault();
			WORLD.with(|w| w.borrow_mut().fault = Fault::None);
			let p = spot(&model.l, &r);
			WORLD.with(|w| w.borrow_mut().fault = f);
			let Some(y) = p.and_then(|p| quo(b(p) * b(x) * b((1_000_000 + gain) as u128), b(ONE_E18) * b(1_000_000))) else { return Ok(()) };
			let y = y.max(model.smallest(z)).max(1);
			if model.l.get(&who, z) < model.l.locked(&who, z).saturating_add(y) || !part && y > 1 << 92 { return Ok(()) }
			if let Err(e) = OTC::place_order(sg(who), a, z, x, y, part) { return Err(format!("{}: {e:?}", what())) }
			model.orders.insert(model.next, Order { owner: who, asset_in: a, asset_out: z, amount_in: x, amount_out: y, partially_fillable: part });
			model.next += 1;
			model.lock();
		}
		Op::Cancel { id } => {
			let id = model.id(id);
			let Some(o) = model.orders.remove(&id) else { return Ok(()) };
			model.lock();
			if let Err(e) = OTC::cancel_order(sg(o.owner), id) { return Err(format!("{}: {e:?}", what())) }
		}
		Op::Trade { who, a, z, x } => {
			let r = known(a, z);
			let x = x.of(model.l.get(&pool(a, r[0].asset_out), a));
			let mut n = model.clone();
			let want = sell(&mut n.l, who, x, 0, &r);
			let got = atomic(what, || Pools::sell(sg(who), a, z, x, 0, r.clone()))?;
			agree(what, &got, &want)?;
			if want.is_some() { *model = n; }
		}
		Op::Donate { a, x } => {
			let x = x.of(model.l.get(&1, a)).max(1);
			let mut n = model.clone();
			let pot = model.pot;
			let want = n.l.mv(a, &1, &pot, x);
			let got = atomic(what, || Tokens::transfer(sg(1), pot, a, x))?;
			agree(what, &got, &want)?;
			if want.is_some() { m.label("own funds"); *model = n; }
		}
		Op::Settle { who, id, x, right, long } => {
			let id = model.id(id);
			let o = model.orders.get(&id).cloned();
			let base = match &o { Some(o) => if right { model.clone().find(id).unwrap_or(o.amount_in) } else { o.amount_in }, None => 1_000_000 };
			let x = x.of(base);
			let r = match (&o, long) { (Some(o), None) => known(o.asset_out, o.asset_in), (Some(o), Some(l)) => route(o.asset_out, o.asset_in, l), _ => route(0, 1, false) };
			let mut n = model.clone();
			let want = n.settle(id, x, &r);
			let origin = match who { Some(w) => sg(w), None => RuntimeOrigin::from(RawOrigin::None) };
			let got = atomic(what, || Settle::settle_otc_order(origin, id, x, r.clone()))?;
			agree(what, &got, &want.ok())?;
			match want {
				Ok(profit) => { settled(what, m, model, &n, id, x, profit)?; *model = n; }
				Err(No::High) => { m.label("too high"); ensure_eq!(got, Err(pallet_otc_settlements::Error::<Test>::TradeAmountTooHigh.into()), "{}: reason", what()) }
				Err(No::Low) => { m.label("too low"); ensure_eq!(got, Err(pallet_otc_settlements::Error::<Test>::TradeAmountTooLow.into()), "{}: reason", what()) }
				Err(No::Other) => m.label("refused"),
			}
		}
		Op::Worker { later, validator, run } => {
			// `later` 0: the same block again, 3: an older one
			match later { 0 => {}, 3 => model.block = model.block.saturating_sub(1), n => model.block += n as u64 }
			let order: Vec<u32> = pallet_otc::Orders::<Test>::iter().map(|x| x.0).collect();
			let want = if validator { model.worker(&order) } else { vec![] };
			if model.list.iter().any(|i| !model.orders.contains_key(i)) { m.label("closed order in the list"); }
			sp_io::offchain::set_validator(validator);
			txs.write().transactions.clear();
			with_transaction_unchecked(|| { Settle::offchain_worker(model.block); TransactionOutcome::Rollback(()) });
			sp_io::offchain::set_validator(true);
			let mut sent = vec![];
			for t in txs.read().transactions.iter().rev() {
				let t = Xt::decode(&mut &t[..]).map_err(|e| format!("{}: {e}", what()))?;
				ensure_that!(t.signature.is_none(), "{}: signed", what());
				let RuntimeCall::Settle(call) = t.call else { return Err(format!("{}: foreign call", what())) };
				sent.push(call);
			}
			let calls: Vec<Call<Test>> = want.iter().map(|(id, x)| { let o = &model.orders[id]; Call::settle_otc_order { otc_id: *id, amount: *x, route: known(o.asset_out, o.asset_in) } }).collect();
			ensure_eq!(sent, calls, "{}: transactions", what());
			if !sent.is_empty() { m.label("worker found"); }
			if sent.len() > 1 { m.label("worker found several"); }
			for (call, (id, x)) in sent.into_iter().zip(want) {
				for s in [TransactionSource::Local, TransactionSource::InBlock] {
					let v: ValidTransaction = match Settle::validate_unsigned(s, &call) { Ok(v) => v, e => return Err(format!("{}: {s:?} {e:?}", what())) };
					ensure_that!(v.priority == 100 && !v.propagate && v.longevity == 3 && v.provides.len() == 1, "{}: {v:?}", what());
				}
				ensure_that!(Settle::validate_unsigned(TransactionSource::External, &call).is_err(), "{}: accepted from outside", what());
				if !run { continue }
				// what the worker sent is accepted in the same order
				System::reset_events();
				let mut n = model.clone();
				let profit = n.settle(id, x, &known(n.orders[&id].asset_out, n.orders[&id].asset_in)).map_err(|e| format!("{}: model {e:?}", what()))?;
				if let Err(e) = RuntimeCall::Settle(call).dispatch_bypass_filter(RuntimeOrigin::from(RawOrigin::None)) { return Err(format!("{}: transaction of order {id} refused: {e:?}", what())) }
				settled(what, m, model, &n, id, x, profit)?;
				*model = n;
			}
		}
		Op::Route { pair, long } => WORLD.with(|w| w.borrow_mut().routes[pair as usize] = long),
		Op::Faulty(f) => WORLD.with(|w| w.borrow_mut().fault = f),
	}
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; the router by constant product pools with one or two hops and injected faults");
	c.check("settlements", "histories of OTC orders, market trades, settlements by anyone and offchain worker runs (also repeated or for older blocks) against exact books; non-trivial: an order was settled", 25_000, 800_000, || case(16), run);
	std::process::exit(c.finish());
}
