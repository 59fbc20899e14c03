use frame_system::RawOrigin;
use hydradx_traits::{pools::DustRemovalAccountWhitelist, registry::{AssetKind, Create, Inspect}, router::{ExecutorError, PoolType, TradeExecution}, AssetPairAccountIdFor, CanCreatePool, Source, AMM as _, AMMPosition};
use kit::fakes::*;
use kit::*;
use pallet_xyk::types::AssetPair;
use std::cell::Cell;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, XYK: pallet_xyk });
system_config!(Test, u64, ());
tokens_config!(Test, OneEd, Nothing, ());

thread_local! { static CFG: Cell<Cfg> = Cell::new(Cfg::default()); }
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { fee: (u32, u32), discounted: (u32, u32), min_trade: u128, min_liq: u128, max_in: u128, max_out: u128 }
fn cfg() -> Cfg { CFG.with(|c| c.get()) }
parameter_types! {
	pub const Native: AssetId = 0;
	pub Fee: (u32, u32) = cfg().fee;
	pub Discounted: (u32, u32) = cfg().discounted;
	pub MinTrade: u128 = cfg().min_trade;
	pub MinLiq: u128 = cfg().min_liq;
	pub MaxIn: u128 = cfg().max_in;
	pub MaxOut: u128 = cfg().max_out;
	pub const Src: Source = *b"hydraxyk";
}
pub struct Registry;
impl Inspect for Registry {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(_: AssetId) -> bool { true }
	fn exists(_: AssetId) -> bool { true }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
fn share_of(a: AssetId, b: AssetId) -> AssetId { 1000 + a.min(b) * 10 + a.max(b) }
fn pool_of(a: AssetId, b: AssetId) -> u64 { 10_000 + (a.min(b) * 10 + a.max(b)) as u64 }
impl Create<u128> for Registry {
	type Error = DispatchError;
	type Name = Vec<u8>;
	type Symbol = Vec<u8>;
	fn register_asset(_: Option<AssetId>, _: Option<Vec<u8>>, _: AssetKind, _: Option<u128>, _: Option<Vec<u8>>, _: Option<u8>, _: Option<u8>, _: Option<u128>, _: bool) -> Result<AssetId, DispatchError> { Err("must not register".into()) }
	fn get_or_register_asset(name: Vec<u8>, _: AssetKind, _: Option<u128>, _: Option<Vec<u8>>, _: Option<u8>, _: Option<u8>, _: Option<u128>, _: bool) -> Result<AssetId, DispatchError> {
		if name.len() != 11 || &name[4..7] != b"HDT" { return Err("odd share token name".into()); }
		let n = |i: usize| u32::from_le_bytes(name[i..i + 4].try_into().unwrap());
		Ok(1000 + n(0) * 10 + n(7))
	}
}
pub struct PairId;
impl AssetPairAccountIdFor<AssetId, u64> for PairId { fn from_assets(a: AssetId, b: AssetId, _: &str) -> u64 { pool_of(a, b) } }
pub struct NotPair12;
impl CanCreatePool<AssetId> for NotPair12 { fn can_create(a: AssetId, b: AssetId) -> bool { !(a.min(b) == 1 && a.max(b) == 4) } }
pub struct White;
impl DustRemovalAccountWhitelist<u64> for White {
	type Error = DispatchError;
	fn add_account(a: &u64) -> Result<(), DispatchError> { push(Act::Custom("white", vec![*a as u128])); Ok(()) }
	fn remove_account(a: &u64) -> Result<(), DispatchError> { push(Act::Custom("unwhite", vec![*a as u128])); Err("ignored".into()) }
}
impl pallet_xyk::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetRegistry = Registry;
	type AssetPairAccountId = PairId;
	type Currency = Tokens;
	type NativeAssetId = Native;
	type WeightInfo = ();
	type GetExchangeFee = Fee;
	type MinTradingLimit = MinTrade;
	type MinPoolLiquidity = MinLiq;
	type MaxInRatio = MaxIn;
	type MaxOutRatio = MaxOut;
	type CanCreatePool = NotPair12;
	type AMMHandler = Recorder;
	type DiscountedFee = Discounted;
	type NonDustableWhitelistHandler = White;
	type OracleSource = Src;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Create { who: u64, a: AssetId, b: AssetId, x: u128, y: u128 },
	Add { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim },
	Remove { who: u64, a: AssetId, b: AssetId, x: A },
	Sell { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, disc: bool, route: bool },
	Buy { who: u64, a: AssetId, b: AssetId, x: A, lim: Lim, disc: bool, route: bool },
	Donate { who: u64, a: AssetId, b: AssetId, x: A },
	Give { who: u64, to: u64, a: AssetId, b: AssetId, x: A },
}
const ASSETS: [AssetId; 5] = [0, 1, 2, 3, 4];
fn asset() -> impl Strategy<Value = AssetId> { prop_oneof![4 => Just(0u32), 4 => Just(1), 4 => Just(2), 1 => Just(3), 1 => Just(4)] }
fn pr() -> impl Strategy<Value = (AssetId, AssetId)> { prop_oneof![9 => prop::sample::select(vec![(0u32, 1u32), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0), (3, 4)]), 1 => (asset(), asset())] }
fn who() -> impl Strategy<Value = u64> { 1u64..=3 }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		3 => (who(), asset(), asset(), mag(1, 1 << 80), mag(1, 1 << 80)).prop_map(|(who, a, b, x, y)| Op::Create { who, a, b, x, y }),
		3 => (who(), pr(), amt(), lim()).prop_map(|(who, (a, b), x, lim)| Op::Add { who, a, b, x, lim }),
		3 => (who(), pr(), prop_oneof![2 => amt(), 2 => Just(A::Part(1_000_000))]).prop_map(|(who, (a, b), x)| Op::Remove { who, a, b, x }),
		5 => (who(), pr(), small_amt(), lim(), 0u8..3).prop_map(|(who, (a, b), x, lim, k)| Op::Sell { who, a, b, x, lim, disc: k == 1, route: k == 2 }),
		5 => (who(), pr(), small_amt(), lim(), 0u8..3).prop_map(|(who, (a, b), x, lim, k)| Op::Buy { who, a, b, x, lim, disc: k == 1, route: k == 2 }),
		1 => (who(), pr(), small_amt()).prop_map(|(who, (a, b), x)| Op::Donate { who, a, b, x }),
		1 => (who(), who(), pr(), small_amt()).prop_map(|(who, to, (a, b), x)| Op::Give { who, to, a, b, x }),
	]
}
fn fee() -> impl Strategy<Value = (u32, u32)> { prop_oneof![3 => Just((3u32, 1000u32)), 1 => Just((0, 1000)), 1 => Just((3, 0)), 1 => Just((1, 1)), 3 => (1u32..50, 50u32..10_000)] }
fn config() -> impl Strategy<Value = Cfg> {
	(fee(), fee(), prop_oneof![Just(1u128), 1u128..2000], prop_oneof![Just(1u128), 1u128..2000], 1u128..5, 1u128..5)
		.prop_map(|(fee, discounted, min_trade, min_liq, max_in, max_out)| Cfg { fee, discounted, min_trade, min_liq, max_in, max_out })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, start: Vec<(u128, u128)>, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	(config(), proptest::collection::vec((prop_oneof![1 => mag(1, 1 << 80), 4 => mag(1 << 14, 1 << 80)], prop_oneof![1 => mag(1, 1 << 80), 4 => mag(1 << 14, 1 << 80)]), 2..=4), proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, start, ops)| Case { cfg, start, ops })
}

/// The specification.
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, shares: std::collections::BTreeMap<(AssetId, AssetId), u128>, order: std::collections::BTreeMap<(AssetId, AssetId), (AssetId, AssetId)> }
fn pair(a: AssetId, b: AssetId) -> (AssetId, AssetId) { (a.min(b), a.max(b)) }
fn fee_of(x: u128, f: (u32, u32)) -> Option<u128> {
	if f.0 == 0 || f.1 == 0 { Some(0) } else if f.0 == f.1 { Some(x) } else { (x / f.1 as u128).checked_mul(f.0 as u128) }
}
struct Out { acts: Vec<Act>, event: Option<pallet_xyk::Event<Test>>, trade: Option<u128> }
impl M {
	fn res(&self, a: AssetId, b: AssetId) -> (u128, u128) { let p = pool_of(a, b); (self.l.get(&p, a), self.l.get(&p, b)) }
	fn amount(&self, o: &Op) -> u128 {
		match o {
			Op::Create { .. } => 0,
			Op::Add { a, b, x, .. } => x.of(self.res(*a, *b).0),
			Op::Remove { who, a, b, x } => x.of(self.l.get(who, share_of(*a, *b))),
			Op::Sell { a, b, x, .. } => x.of(self.res(*a, *b).0),
			Op::Buy { a, b, x, .. } => x.of(self.res(*a, *b).1),
			Op::Donate { who, a, x, .. } => x.of(self.l.get(who, *a)),
			Op::Give { who, a, b, x, .. } => x.of(self.l.get(who, share_of(*a, *b))),
		}
	}
	/// exact amount the limit is about
	fn quote(&self, o: &Op, x: u128) -> Option<u128> {
		let c = cfg();
		match o {
			Op::Add { a, b, .. } => { let (ra, rb) = self.res(*a, *b); if ra == 0 { return None } if x == 0 || rb == 0 { Some(0) } else { md(x, rb, ra)?.checked_add(1) } }
			Op::Sell { a, b, disc, .. } => { let (ra, rb) = self.res(*a, *b); let g = quo(b_(rb) * b_(x), b_(ra) + b_(x))?; g.checked_sub(fee_of(g, if *disc { c.discounted } else { c.fee })?) }
			Op::Buy { a, b, disc, .. } => { let (ra, rb) = self.res(*a, *b); if x >= rb { return None } let g = quo(b_(ra) * b_(x), b_(rb) - b_(x))?.checked_add(1)?; g.checked_add(fee_of(g, if *disc { c.discounted } else { c.fee })?) }
			_ => None,
		}
	}
	fn native_cost(&self, other: AssetId, fee: u128) -> Option<u128> {
		self.shares.get(&pair(other, 0))?;
		if other == 0 { return None }
		let (ra, rn) = self.res(other, 0);
		if ra == 0 { return None }
		md(fee, rn, ra)
	}
	fn step(&mut self, o: &Op, x: u128, limit: u128) -> Option<Out> {
		let c = cfg();
		let mut acts = vec![];
		let mut event = None;
		let mut trade = None;
		match *o {
			Op::Create { who, a, b, x, y } => {
				if a == b || pair(a, b) == (1, 4) || x < c.min_liq || y < c.min_liq || self.shares.contains_key(&pair(a, b)) { return None }
				let p = pool_of(a, b);
				self.l.mv(a, &who, &p, x)?;
				self.l.mv(b, &who, &p, y)?;
				let s = if a < b { x } else { y };
				self.l.mint(&who, share_of(a, b), s)?;
				self.shares.insert(pair(a, b), s);
				self.order.insert(pair(a, b), (a, b));
				acts = vec![Act::Created(a, b), Act::Custom("white", vec![p as u128])];
				event = Some(pallet_xyk::Event::PoolCreated { who, asset_a: a, asset_b: b, initial_shares_amount: s, share_token: share_of(a, b), pool: p });
			}
			Op::Add { who, a, b, .. } => {
				let total = *self.shares.get(&pair(a, b))?;
				if x < c.min_trade || limit == 0 { return None }
				let (ra, _) = self.res(a, b);
				let y = self.quote(o, x)?;
				if y > limit { return None }
				let s = md(total, x, ra)?;
				if s == 0 || self.l.get(&who, share_of(a, b)).checked_add(s)? < c.min_liq { return None }
				let p = pool_of(a, b);
				self.l.mv(a, &who, &p, x)?;
				self.l.mv(b, &who, &p, y)?;
				self.l.mint(&who, share_of(a, b), s)?;
				self.shares.insert(pair(a, b), total.checked_add(s)?);
				let r = self.res(a, b);
				acts = vec![Act::Liquidity { src: Src::get(), a: (a, b), amount: (x, y), liq: r, price: r }];
				event = Some(pallet_xyk::Event::LiquidityAdded { who, asset_a: a, asset_b: b, amount_a: x, amount_b: y });
			}
			Op::Remove { who, a, b, .. } => {
				let total = *self.shares.get(&pair(a, b))?;
				let own = self.l.get(&who, share_of(a, b));
				if x == 0 || x > total || x > own || (own - x < c.min_liq && own != x) { return None }
				let (ra, rb) = self.res(a, b);
				let (oa, ob) = (md(ra, x, total)?, md(rb, x, total)?);
				let p = pool_of(a, b);
				self.l.mv(a, &p, &who, oa)?;
				self.l.mv(b, &p, &who, ob)?;
				self.l.burn(&who, share_of(a, b), x)?;
				let r = self.res(a, b);
				acts.push(Act::Liquidity { src: Src::get(), a: (a, b), amount: (oa, ob), liq: r, price: (r.0, r.1.max(1)) });
				if total == x { self.shares.remove(&pair(a, b)); self.order.remove(&pair(a, b)); acts.push(Act::Custom("unwhite", vec![p as u128])); } else { self.shares.insert(pair(a, b), total - x); }
				event = Some(if total == x { pallet_xyk::Event::PoolDestroyed { who, asset_a: a, asset_b: b, share_token: share_of(a, b), pool: p } } else { pallet_xyk::Event::LiquidityRemoved { who, asset_a: a, asset_b: b, shares: x } });
			}
			Op::Sell { who, a, b, disc, .. } => {
				self.shares.get(&pair(a, b))?;
				let (ra, rb) = self.res(a, b);
				if x < c.min_trade || self.l.get(&who, a) < x || x > ra / c.max_in { return None }
				let gross = quo(b_(rb) * b_(x), b_(ra) + b_(x))?;
				if gross > rb / c.max_out || gross >= rb { return None }
				let fee = fee_of(gross, if disc { c.discounted } else { c.fee })?;
				let net = gross.checked_sub(fee)?;
				if net < limit { return None }
				if disc { let n = self.native_cost(a, fee)?; self.l.burn(&who, 0, n)?; }
				let p = pool_of(a, b);
				self.l.mv(a, &who, &p, x)?;
				self.l.mv(b, &p, &who, net)?;
				let r = self.res(a, b);
				acts = vec![Act::Trade { src: Src::get(), a: (a, b), amount: (x, net), liq: r, price: r }];
				event = Some(pallet_xyk::Event::SellExecuted { who, asset_in: a, asset_out: b, amount: x, sale_price: net, fee_asset: b, fee_amount: fee, pool: p });
				trade = Some(net);
			}
			Op::Buy { who, a, b, disc, .. } => {
				self.shares.get(&pair(a, b))?;
				let (ra, rb) = self.res(a, b);
				if x < c.min_trade || x >= rb || x > rb / c.max_out { return None }
				let price = if x == 0 { 0 } else { quo(b_(ra) * b_(x), b_(rb) - b_(x))?.checked_add(1)? };
				if price > ra / c.max_in { return None }
				let fee = fee_of(price, if disc { c.discounted } else { c.fee })?;
				let all = price.checked_add(fee)?;
				if all > limit || self.l.get(&who, a) < all { return None }
				if disc { let n = self.native_cost(b, fee)?; self.l.burn(&who, 0, n)?; }
				let p = pool_of(a, b);
				self.l.mv(b, &p, &who, x)?;
				self.l.mv(a, &who, &p, all)?;
				let r = self.res(a, b);
				acts = vec![Act::Trade { src: Src::get(), a: (a, b), amount: (price, x), liq: r, price: r }];
				event = Some(pallet_xyk::Event::BuyExecuted { who, asset_out: b, asset_in: a, amount: x, buy_price: price, fee_asset: a, fee_amount: fee, pool: p });
				trade = Some(all);
			}
			Op::Donate { who, a, b, .. } => { self.l.mv(a, &who, &pool_of(a, b), x)?; }
			Op::Give { who, to, a, b, .. } => { self.l.mv(share_of(a, b), &who, &to, x)?; }
		}
		Some(Out { acts, event, trade })
	}
}
fn b_(x: u128) -> U1024 { b(x) }
/// The pool as the router sees it: quotes, depth and price of a pair.
fn router_view(model: &M, o: &Op, x: u128, trades: bool) -> Res {
	let (Op::Sell { a, b, .. } | Op::Buy { a, b, .. }) = *o else { return Ok(()) };
	let c = cfg();
	let (ra, rb) = model.res(a, b);
	let plain = |o: &Op| match *o { Op::Sell { who, a, b, x, lim, .. } => Op::Sell { who, a, b, x, lim, disc: false, route: false }, Op::Buy { who, a, b, x, lim, .. } => Op::Buy { who, a, b, x, lim, disc: false, route: false }, _ => unreachable!() };
	let sell = matches!(o, Op::Sell { .. });
	let q = routed::value(if sell { XYK::calculate_sell(PoolType::XYK, a, b, x) } else { XYK::calculate_buy(PoolType::XYK, a, b, x) })?;
	if !model.shares.contains_key(&pair(a, b)) { ensure_eq!(q, None, "quote of a pool that does not exist"); }
	else if trades || q.is_some() { ensure_eq!(q, model.quote(&plain(o), x), "quote"); }
	ensure_eq!(routed::value(XYK::get_liquidity_depth(PoolType::XYK, a, b))?, Some(ra), "depth");
	let p = hydra_dx_math::xyk::calculate_spot_price_with_fee(ra, rb, Some(c.fee)).ok().and_then(routed::inverse);
	ensure_eq!(routed::value(XYK::calculate_spot_price_with_fee(PoolType::XYK, a, b))?, p, "price with fee");
	let spot = if ra == 0 { 0 } else { md(x, rb, ra).unwrap_or(0) };
	ensure_eq!(XYK::get_spot_price_unchecked(a, b, x), spot, "price of {x}");
	routed::only_own::<RuntimeOrigin, XYK>(PoolType::XYK, || RawOrigin::Signed(1).into(), a, b, x.max(c.min_trade))
}

fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| x.set(c.cfg));
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M::default();
	let mut bal = vec![];
	for w in 1..=3u64 { for a in ASSETS { let v = 1u128 << (85 + w); bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let mut accounts: Vec<u64> = vec![1, 2, 3];
	let mut assets: Vec<AssetId> = ASSETS.to_vec();
	for a in ASSETS { for b in ASSETS { if a <= b { accounts.push(pool_of(a, b)); assets.push(share_of(a, b)); } } }
	let starts = [(0u32, 1u32), (2, 1), (0, 2), (3, 4)];
	let mut ops: Vec<Op> = c.start.iter().zip(starts).map(|((x, y), (a, b))| Op::Create { who: 1, a, b, x: *x, y: *y }).collect();
	ops.extend(c.ops.iter().cloned());
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			let exact = model.quote(o, x);
			let limit = match o { Op::Add { lim, .. } | Op::Buy { lim, .. } => lim.max(exact), Op::Sell { lim, .. } => lim.min(exact), _ => 0 };
			let mut next = model.clone();
			let want = next.step(o, x, limit);
			router_view(&model, o, x, want.is_some()).map_err(|e| format!("{}: {e}", what()))?;
			take_acts();
			System::reset_events();
			let before = model.clone();
			let flat = |r: Result<(), ExecutorError<DispatchError>>| r.map_err(|e| match e { ExecutorError::Error(e) => e, _ => "not supported".into() });
			let got = atomic(what, || match *o {
				Op::Create { who, a, b, x, y } => XYK::create_pool(RawOrigin::Signed(who).into(), a, x, b, y),
				Op::Add { who, a, b, .. } => XYK::add_liquidity(RawOrigin::Signed(who).into(), a, b, x, limit),
				Op::Remove { who, a, b, .. } => XYK::remove_liquidity(RawOrigin::Signed(who).into(), a, b, x),
				Op::Sell { who, a, b, route: true, .. } => flat(<XYK as TradeExecution<_, _, _, _>>::execute_sell(RawOrigin::Signed(who).into(), PoolType::XYK, a, b, x, limit)),
				Op::Buy { who, a, b, route: true, .. } => flat(<XYK as TradeExecution<_, _, _, _>>::execute_buy(RawOrigin::Signed(who).into(), PoolType::XYK, a, b, x, limit)),
				Op::Sell { who, a, b, disc, .. } => XYK::sell(RawOrigin::Signed(who).into(), a, b, x, limit, disc),
				Op::Buy { who, a, b, disc, .. } => XYK::buy(RawOrigin::Signed(who).into(), b, a, x, limit, disc),
				Op::Donate { who, a, b, .. } => Tokens::transfer(RawOrigin::Signed(who).into(), pool_of(a, b), a, x),
				Op::Give { who, to, a, b, .. } => Tokens::transfer(RawOrigin::Signed(who).into(), to, share_of(a, b), x),
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			model = next;
			if !matches!(o, Op::Donate { .. } | Op::Give { .. }) {
				ensure_eq!(take_acts(), out.acts, "{}: reported activity", what());
				let ev = take_events!(Test);
				let last = ev.iter().rev().find_map(|e| if let RuntimeEvent::XYK(e) = e { Some(e.clone()) } else { None });
				ensure_eq!(last, out.event, "{}: event", what());
			}
			match o { Op::Create { .. } => m.label("create"), Op::Add { .. } => m.label("add"), Op::Remove { .. } => m.label("remove"), Op::Sell { disc, .. } | Op::Buy { disc, .. } => { m.nontrivial(); m.label(if *disc { "discounted trade" } else { "trade" }) } _ => {} }
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for a in ASSETS { for b in ASSETS { if a < b {
				let p = pool_of(a, b);
				let s = model.shares.get(&(a, b)).copied();
				ensure_eq!(XYK::exists(AssetPair { asset_in: a, asset_out: b }), s.is_some(), "{}: existence of pool {a}/{b}", what());
				ensure_eq!(XYK::total_liquidity(p), s.unwrap_or(0), "{}: shares of {a}/{b}", what());
				ensure_eq!(XYK::pool_assets(p), model.order.get(&(a, b)).copied(), "{}: assets of {a}/{b}", what());
				ensure_eq!(Tokens::total_issuance(share_of(a, b)), s.unwrap_or(0), "{}: share issuance {a}/{b}", what());
				// no operation dilutes the value behind a share: ra*rb / shares^2 never falls
				if let (Some(n), Some(o)) = (s, before.shares.get(&(a, b))) {
					let ((a0, b0), (a1, b1)) = (before.res(a, b), model.res(a, b));
					ensure_that!(b_(a1) * b_(b1) * b_(*o) * b_(*o) >= b_(a0) * b_(b0) * b_(n) * b_(n), "{}: value per share fell", what());
					if a1 > 0 && b1 > 0 {
						let q = XYK::get_liquidity_behind_shares(a, b, n).map_err(|e| format!("{e:?}"))?;
						ensure_eq!(q, (a1, b1), "{}: liquidity behind all shares", what());
					}
				}
			} } }
			if let (Some(t), Op::Sell { who: w, a, b: bb, .. }) = (out.trade, o) {
				// selling the proceeds straight back never ends ahead
				let (w, a, bb) = (*w, *a, *bb);
				if t >= c.cfg.min_trade {
					let r: Result<(), u128> = frame_support::storage::with_transaction(|| {
						let before = Tokens::free_balance(a, &w);
						let r = XYK::sell(RawOrigin::Signed(w).into(), bb, a, t, 0, false);
						let after = Tokens::free_balance(a, &w);
						sp_runtime::TransactionOutcome::Rollback(Ok::<_, DispatchError>(if r.is_ok() { Err(after - before) } else { Ok(()) }))
					}).unwrap();
					if let Err(got) = r { ensure_that!(got <= x, "{}: sold {x} for {t}, sold back for {got}", what()); m.label("round trip"); }
				}
			}
		}
		Ok(())
	})
}

fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("existential deposits of one; pool and share token ids from injective stand-ins; asset registry replaced by a stand-in that decodes the share token's name");
	c.check("histories", "histories of create/add/remove/sell/buy/donate over five assets and three users against an exact ledger; non-trivial: a trade was executed", 20_000, 400_000, || case(24), run);
	std::process::exit(c.finish());
}
