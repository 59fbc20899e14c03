use frame_support::{traits::Contains, weights::{Weight, WeightToFee}};
use frame_system::RawOrigin;
use hydradx_adapters::{xcm_exchange::XcmAssetExchanger, xcm_execute_filter::AllowTransferAndSwap, MultiCurrencyTrader, ReroutingMultiCurrencyAdapter, ToFeeReceiver};
use hydradx_traits::{router::{AssetPair, ExecutorError, PoolType, RefundEdCalculator, Trade, TradeExecution}, NativePriceOracle};
use kit::*;
use orml_xcm_support::{OnDepositFail, UnknownAsset};
use pallet_transaction_multi_payment::DepositFee;
use sp_runtime::traits::Convert;
use staging_xcm::v4::{prelude::{Asset, AssetFilter, Assets, Fungible, Instruction as I, Junction, Location, NonFungible, OriginKind, QueryResponseInfo, Response, WeightLimit, WildAsset, Xcm, XcmContext, XcmError, XcmResult}, AssetInstance, DoubleEncoded, Junctions, MaybeErrorCode, NetworkId};
use staging_xcm_builder::TakeRevenue;
use staging_xcm_executor::{traits::{AssetExchange, ConvertLocation, MatchesFungible, TransactAsset, WeightTrader}, AssetsInHolding};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, Router: pallet_route_executor });
system_config!(Test, u64, ());
orml_traits::parameter_type_with_key! { pub Eds: |c: u32| -> u128 { ED[*c as usize % ED.len()] }; }
tokens_config!(Test, Eds, Nothing, ());
const ED: [u128; 4] = [1, 5, 1, 50];
/// assets 0..4 have a currency, asset 4 and above do not
const N: u32 = 4;
fn loc(a: u32) -> Location { Location::new((a % 2) as u8, Junction::GeneralIndex(a as u128)) }
fn cur(l: &Location) -> Option<u32> { match l.unpack() { (p, [Junction::GeneralIndex(i)]) if *i < N as u128 && p as u128 == i % 2 => Some(*i as u32), _ => None } }
fn asset(a: u32, x: u128) -> Asset { (loc(a), x).into() }
fn nft(a: u32, i: u128) -> Asset { (loc(a), AssetInstance::Index(i)).into() }
fn ctx() -> XcmContext { XcmContext { origin: None, message_id: [0; 32], topic: None } }
pub struct Conv;
impl Convert<Asset, Option<u32>> for Conv { fn convert(a: Asset) -> Option<u32> { cur(&a.id.0) } }
/// an asset of a message: fungible or an instance
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum X { F(u32, u128), N(u32, u128) }
fn xa(x: &X) -> Asset { match x { X::F(a, v) => asset(*a, *v), X::N(a, i) => nft(*a, *i) } }

// ---- C48 weight trader
#[derive(Clone, Debug, Default)]
struct Env { price: BTreeMap<u32, u128>, coef: (u128, u128), taken: Vec<(u64, u32, u128)>, revenue: Vec<Asset>, refuse: bool }
thread_local! { static ENV: RefCell<Env> = RefCell::new(Env::default()); }
pub struct Prices;
impl NativePriceOracle<u32, FixedU128> for Prices { fn price(c: u32) -> Option<FixedU128> { ENV.with(|e| e.borrow().price.get(&c).copied()).map(FixedU128::from_inner) } }
pub struct W2F;
fn fee_of(w: (u64, u64), c: (u128, u128)) -> u128 { (w.0 as u128).saturating_mul(c.0).saturating_add((w.1 as u128).saturating_mul(c.1)) }
impl WeightToFee for W2F { type Balance = u128; fn weight_to_fee(w: &Weight) -> u128 { fee_of((w.ref_time(), w.proof_size()), ENV.with(|e| e.borrow().coef)) } }
pub struct Deposit;
impl DepositFee<u64, u32, u128> for Deposit { fn deposit_fee(w: &u64, a: u32, x: u128) -> DispatchResult { ENV.with(|e| { if e.borrow().refuse { return Err(DispatchError::Other("refused")) } e.borrow_mut().taken.push((*w, a, x)); Ok(()) }) } }
pub struct Receiver;
impl Get<u64> for Receiver { fn get() -> u64 { 77 } }
pub struct Revenue;
impl TakeRevenue for Revenue { fn take_revenue(a: Asset) { ENV.with(|e| e.borrow_mut().revenue.push(a.clone())); ToFeeReceiver::<u64, u32, u128, FixedU128, Conv, Deposit, Receiver>::take_revenue(a) } }
type Trader = MultiCurrencyTrader<u32, u128, FixedU128, W2F, Prices, Conv, Revenue>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum T { Buy { w: (u64, u64), pay: Vec<X>, exact: Option<i8> }, Refund((u64, u64)), Price(u32, Option<u128>) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C1 { coef: (u128, u128), prices: Vec<Option<u128>>, ops: Vec<T>, refuse: bool }
fn mulp(p: u128, x: u128) -> Option<u128> { quo(b(p) * b(x), b(1_000_000_000_000_000_000)) }
fn run1(c: &C1, m: &mut Meter) -> Res {
	let mut price: BTreeMap<u32, u128> = c.prices.iter().enumerate().filter_map(|(i, p)| p.map(|p| (i as u32, p))).collect();
	ENV.with(|e| *e.borrow_mut() = Env { price: price.clone(), coef: c.coef, refuse: c.refuse, ..Default::default() });
	let mut t = Some(Trader::new());
	let (mut left, mut paid): ((u64, u64), BTreeMap<(Location, u128), u128>) = ((0, 0), BTreeMap::new());
	let (mut spent, mut back): (BTreeMap<Location, u128>, BTreeMap<Location, u128>) = Default::default();
	let (mut buys, mut backs) = (0, 0);
	for (i, op) in c.ops.iter().enumerate() {
		match op {
			T::Price(a, p) => { match p { Some(p) => price.insert(*a, *p), None => price.remove(a) }; ENV.with(|e| e.borrow_mut().price = price.clone()); }
			T::Buy { w, pay, exact } => {
				let mut pay: Vec<Asset> = pay.iter().map(xa).collect();
				let fee = fee_of(*w, c.coef);
				let first = |v: &[Asset]| AssetsInHolding::from(v.to_vec()).fungible_assets_iter().next();
				// sometimes the first asset covers just the fee
				if let (Some(d), Some(f)) = (exact, first(&pay)) { if let Some(need) = cur(&f.id.0).and_then(|x| price.get(&x)).and_then(|p| mulp(*p, fee)) { let v = if *d < 0 { need.saturating_sub(1) } else { need.saturating_add(*d as u128) }; pay.retain(|a| a.id != f.id || !a.is_fungible(None)); if v > 0 { pay.push(Asset { id: f.id.clone(), fun: Fungible(v) }); } } }
				let holding = AssetsInHolding::from(pay.clone());
				let want: Result<AssetsInHolding, XcmError> = (|| {
					let f = first(&pay).ok_or(XcmError::AssetNotFound)?;
					let p = *cur(&f.id.0).and_then(|x| price.get(&x)).ok_or(XcmError::AssetNotFound)?;
					let need = mulp(p, fee).ok_or(XcmError::Overflow)?;
					let Fungible(have) = f.fun else { unreachable!() };
					if have < need { return Err(XcmError::TooExpensive) }
					if spent.get(&f.id.0).copied().unwrap_or(0).checked_add(need).is_none() { return Err(XcmError::Trap(1)) } // more than can exist
					let mut rest = holding.clone();
					if have == need { rest.fungible.remove(&f.id); } else { rest.fungible.insert(f.id.clone(), have - need); }
					left = (left.0.saturating_add(w.0), left.1.saturating_add(w.1));
					*paid.entry((f.id.0.clone(), p)).or_default() += need;
					*spent.entry(f.id.0).or_default() += need;
					buys += 1;
					Ok(rest)
				})();
				if want == Err(XcmError::Trap(1)) { return Ok(()) }
				let got = no_panic(|| t.as_mut().unwrap().buy_weight(Weight::from_parts(w.0, w.1), holding.clone(), &ctx()))?;
				ensure_eq!(got, want, "op {i}: buying weight {w:?} (fee {fee}) with {holding:?}");
			}
			T::Refund(w) => {
				let got = no_panic(|| t.as_mut().unwrap().refund_weight(Weight::from_parts(w.0, w.1), &ctx()))?;
				let w = (w.0.min(left.0), w.1.min(left.1));
				left = (left.0 - w.0, left.1 - w.1);
				let first = paid.iter().next().map(|(k, v)| (k.clone(), *v));
				let want = first.map(|((l, p), v)| { let r = mulp(p, fee_of(w, c.coef)).unwrap_or(u128::MAX).min(v); if r == v { paid.remove(&(l.clone(), p)); } else { paid.insert((l.clone(), p), v - r); } (l, r) }).filter(|x| x.1 > 0);
				let got = got.map(|a| match a.fun { Fungible(x) => Ok((a.id.0, x)), _ => Err(format!("op {i}: refund of an instance")) }).transpose()?.filter(|x| x.1 > 0);
				ensure_eq!(got, want, "op {i}: refund of weight {w:?}");
				if let Some((l, x)) = got { *back.entry(l).or_default() += x; backs += 1; }
			}
		}
		must!(ENV.with(|e| e.borrow().revenue.is_empty()), "op {i}: revenue taken while the trader is in use");
	}
	no_panic(|| drop(t.take()))?;
	let e = ENV.with(|e| e.borrow().clone());
	// what was paid is refunded or becomes revenue, once
	let mut rev: BTreeMap<Location, u128> = BTreeMap::new();
	for a in &e.revenue { let Fungible(x) = a.fun else { return Err("revenue in instances".into()) }; *rev.entry(a.id.0.clone()).or_default() += x; }
	for (l, x) in &spent {
		let (r, k) = (rev.get(l).copied().unwrap_or(0), back.get(l).copied().unwrap_or(0));
		must!(r + k == *x, "{l:?}: paid {x}, refunded {k}, revenue {r}");
	}
	for (l, x) in &rev { must!(*x == 0 || spent.contains_key(l), "revenue {x} of {l:?} that nobody paid"); }
	// and the revenue reaches the receiver of fees
	let mut fees: BTreeMap<u32, u128> = BTreeMap::new();
	for (w, a, x) in &e.taken { must!(*w == 77, "fee deposited to {w}"); *fees.entry(*a).or_default() += x; }
	let mut want: BTreeMap<u32, u128> = BTreeMap::new();
	if !c.refuse { for (l, x) in &rev { if let Some(a) = cur(l) { *want.entry(a).or_default() += x; } } }
	fees.retain(|_, v| *v > 0); want.retain(|_, v| *v > 0);
	ensure_eq!(fees, want, "fees deposited");
	if buys >= 2 && backs >= 1 { m.nontrivial(); m.label("bought twice and refunded"); }
	if spent.len() > 1 { m.label("several assets"); }
	if rev.values().any(|x| *x > 0) { m.label("revenue"); }
	Ok(())
}

// ---- C49 which messages may be executed
/// message as a tree of instruction numbers
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tree { Leaf(u8), Nest(u8, Vec<Tree>) }
const SAFE: u8 = 8;
fn leaf<C>(k: u8, r: u64) -> I<C> {
	let (l, a) = (|| loc(r as u32 % 6), || Assets::from(asset(r as u32 % 5, r as u128 + 1)));
	let f = || if r % 2 == 0 { AssetFilter::Definite(a()) } else { AssetFilter::Wild(WildAsset::AllCounted(r as u32 % 9)) };
	let q = || QueryResponseInfo { destination: l(), query_id: r, max_weight: Weight::from_parts(r, r) };
	let limit = if r % 3 == 0 { WeightLimit::Unlimited } else { WeightLimit::Limited(Weight::from_parts(r, 0)) };
	match k {
		0 => I::ClearOrigin, 1 => I::ExchangeAsset { give: f(), want: a(), maximal: r % 2 == 0 }, 2 => I::WithdrawAsset(a()), 3 => I::TransferAsset { assets: a(), beneficiary: l() }, 4 => I::DepositAsset { assets: f(), beneficiary: l() }, 5 => I::ExpectAsset(a()), 6 => I::SetFeesMode { jit_withdraw: r % 2 == 0 }, 7 => I::BuyExecution { fees: asset(1, r as u128 + 1), weight_limit: limit },
		8 => I::ReserveAssetDeposited(a()), 9 => I::ReceiveTeleportedAsset(a()), 10 => I::QueryResponse { query_id: r, response: Response::Null, max_weight: Weight::zero(), querier: None },
		11 => I::Transact { origin_kind: [OriginKind::Native, OriginKind::SovereignAccount, OriginKind::Superuser, OriginKind::Xcm][r as usize % 4], require_weight_at_most: Weight::from_parts(r, r), call: DoubleEncoded::from(vec![r as u8]) },
		12 => I::HrmpNewChannelOpenRequest { sender: 1, max_message_size: 1, max_capacity: 1 }, 13 => I::HrmpChannelAccepted { recipient: 1 }, 14 => I::HrmpChannelClosing { initiator: 1, sender: 1, recipient: 2 }, 15 => I::DescendOrigin(Junctions::from(Junction::OnlyChild)), 16 => I::ReportError(q()),
		17 => I::InitiateTeleport { assets: f(), dest: l(), xcm: Xcm(vec![]) }, 18 => I::ReportHolding { response_info: q(), assets: f() }, 19 => I::RefundSurplus, 20 => I::SetErrorHandler(Xcm(vec![])), 21 => I::SetAppendix(Xcm(vec![])), 22 => I::ClearError, 23 => I::ClaimAsset { assets: a(), ticket: l() }, 24 => I::Trap(r),
		25 => I::SubscribeVersion { query_id: r, max_response_weight: Weight::zero() }, 26 => I::UnsubscribeVersion, 27 => I::BurnAsset(a()), 28 => I::ExpectOrigin(None), 29 => I::ExpectError(None), 30 => I::ExpectTransactStatus(MaybeErrorCode::Success), 31 => I::QueryPallet { module_name: vec![], response_info: q() }, 32 => I::ExpectPallet { index: 1, name: vec![], module_name: vec![], crate_major: 1, min_crate_minor: 1 },
		33 => I::ReportTransactStatus(q()), 34 => I::ClearTransactStatus, 35 => I::UniversalOrigin(Junction::OnlyChild), 36 => I::ExportMessage { network: NetworkId::Polkadot, destination: Junctions::Here, xcm: Xcm(vec![]) }, 37 => I::LockAsset { asset: asset(1, 1), unlocker: l() }, 38 => I::UnlockAsset { asset: asset(1, 1), target: l() }, 39 => I::NoteUnlockable { asset: asset(1, 1), owner: l() }, 40 => I::RequestUnlock { asset: asset(1, 1), locker: l() },
		41 => I::SetTopic([r as u8; 32]), 42 => I::ClearTopic, 43 => I::AliasOrigin(l()), _ => I::UnpaidExecution { weight_limit: limit, check_origin: None },
	}
}
fn build<C>(t: &[Tree], r: u64) -> Xcm<C> {
	Xcm(t.iter().enumerate().map(|(i, t)| { let r = r.wrapping_mul(31).wrapping_add(i as u64); match t {
		Tree::Leaf(k) => leaf(*k, r),
		Tree::Nest(k, v) => { let (xcm, l, a) = (build::<()>(v, r), loc(3), Assets::from(asset(1, 5))); let f = if r % 2 == 0 { AssetFilter::Definite(a.clone()) } else { AssetFilter::Wild(WildAsset::All) }; match k { 0 => I::InitiateReserveWithdraw { assets: f, reserve: l, xcm }, 1 => I::DepositReserveAsset { assets: f, dest: l, xcm }, _ => I::TransferReserveAsset { assets: a, dest: l, xcm } } }
	} }).collect())
}
fn depth(t: &[Tree]) -> u16 { t.iter().map(|t| match t { Tree::Leaf(_) => 0, Tree::Nest(_, v) => 1 + depth(v) }).max().unwrap_or(0) }
fn count(t: &[Tree]) -> u16 { t.iter().map(|t| match t { Tree::Leaf(_) => 1, Tree::Nest(_, v) => 1 + count(v) }).sum() }
fn safe(t: &[Tree]) -> bool { t.iter().all(|t| match t { Tree::Leaf(k) => *k < SAFE, Tree::Nest(_, v) => safe(v) }) }
thread_local! { static LIMITS: std::cell::Cell<(u16, u16)> = std::cell::Cell::new((0, 0)); }
pub struct MaxDepth; impl Get<u16> for MaxDepth { fn get() -> u16 { LIMITS.with(|l| l.get().0) } }
pub struct MaxCount; impl Get<u16> for MaxCount { fn get() -> u16 { LIMITS.with(|l| l.get().1) } }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C2 { t: Vec<Tree>, r: u64, who: u8, dd: i8, dc: i8 }
fn run2(c: &C2, m: &mut Meter) -> Res {
	let (d, n) = (depth(&c.t), count(&c.t));
	// limits around what the message needs
	let lim = (d.saturating_add_signed(c.dd as i16), n.saturating_add_signed(c.dc as i16));
	LIMITS.with(|l| l.set(lim));
	let xcm = build::<RuntimeCall>(&c.t, c.r);
	let root = c.who == 0;
	let l = match c.who { 0 => Location::here(), 1 => Location::new(0, Junction::AccountId32 { network: None, id: [1; 32] }), 2 => Location::parent(), 3 => Location::new(1, Junction::Parachain(2000)), _ => Location::new(0, Junction::PalletInstance(3)) };
	let want = root || safe(&c.t) && d <= lim.0 && n <= lim.1;
	let got = no_panic(|| AllowTransferAndSwap::<MaxDepth, MaxCount, RuntimeCall>::contains(&(l, xcm)))?;
	must!(got == want, "message with {n} instructions nested {d} deep, all harmless: {}; limits {lim:?}; root: {root}; allowed: {got}", safe(&c.t));
	if !root && d > 0 { m.nontrivial(); m.label(if want { "allowed" } else if !safe(&c.t) { "harmful instruction" } else if n > lim.1 { "too long" } else { "too deep" }) }
	Ok(())
}

// ---- C50 exchanging, depositing, withdrawing and transferring assets
const POOL: u64 = 500;
const TEMP: u64 = 99;
const ALT: u64 = 55;
const TO: u64 = 66;
thread_local! { static SET: RefCell<(bool, Vec<(u32, u64)>, bool)> = RefCell::new(Default::default()); }
pub struct Venue;
type Ex<T> = Result<T, ExecutorError<DispatchError>>;
fn er<T>(x: Option<T>, s: &'static str) -> Ex<T> { x.ok_or(ExecutorError::Error(DispatchError::Other(s))) }
fn pool(a: u32, c: u32) -> u64 { POOL + (a.min(c) * 10 + a.max(c)) as u64 }
fn res(a: u32, c: u32) -> (u128, u128) { (Tokens::free_balance(a, &pool(a, c)), Tokens::free_balance(c, &pool(a, c))) }
fn out_of(a: u32, c: u32, x: u128) -> Option<u128> { let (ra, rb) = res(a, c); if ra == 0 || rb == 0 { return None } quo(b(rb) * b(x), b(ra) + b(x)) }
fn in_of(a: u32, c: u32, x: u128) -> Option<u128> { let (ra, rb) = res(a, c); if ra == 0 || x >= rb { return None } quo(b(ra) * b(x), b(rb) - b(x))?.checked_add(1) }
fn swap(who: RuntimeOrigin, a: u32, c: u32, x: u128, y: u128) -> Ex<()> {
	let w = frame_system::ensure_signed(who).map_err(|e| ExecutorError::Error(e.into()))?;
	if SET.with(|s| s.borrow().0) { return er(None, "broken") }
	<Tokens as MultiCurrency<u64>>::transfer(a, &w, &pool(a, c), x).map_err(ExecutorError::Error)?;
	<Tokens as MultiCurrency<u64>>::transfer(c, &pool(a, c), &w, y).map_err(ExecutorError::Error)
}
impl TradeExecution<RuntimeOrigin, u64, u32, u128> for Venue {
	type Error = DispatchError;
	fn calculate_sell(_: PoolType<u32>, a: u32, c: u32, x: u128) -> Ex<u128> { er(out_of(a, c, x), "quote") }
	fn calculate_buy(_: PoolType<u32>, a: u32, c: u32, x: u128) -> Ex<u128> { er(in_of(a, c, x), "quote") }
	fn execute_sell(w: RuntimeOrigin, _: PoolType<u32>, a: u32, c: u32, x: u128, min: u128) -> Ex<()> { let y = er(out_of(a, c, x), "sell")?; if y < min { return er(None, "limit") } swap(w, a, c, x, y) }
	fn execute_buy(w: RuntimeOrigin, _: PoolType<u32>, a: u32, c: u32, x: u128, max: u128) -> Ex<()> { let y = er(in_of(a, c, x), "buy")?; if y > max { return er(None, "limit") } swap(w, a, c, y, x) }
	fn get_liquidity_depth(_: PoolType<u32>, a: u32, c: u32) -> Ex<u128> { Ok(res(a, c).0) }
	fn calculate_spot_price_with_fee(_: PoolType<u32>, _: u32, _: u32) -> Ex<FixedU128> { er(None, "price") }
}
pub struct Reg;
impl hydradx_traits::registry::Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(_: AssetId) -> bool { true }
	fn exists(_: AssetId) -> bool { true }
	fn decimals(_: AssetId) -> Option<u8> { None }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(_: AssetId) -> Option<u128> { None }
}
pub struct Refund;
impl RefundEdCalculator<u128> for Refund { fn calculate() -> u128 { 1 } }
parameter_types! { pub const Native: u32 = 0; pub Default0: PoolType<u32> = PoolType::Omnipool; pub const Temp: u64 = TEMP; pub const Dest: u64 = TO; }
impl pallet_route_executor::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AssetId = u32;
	type Balance = u128;
	type NativeAssetId = Native;
	type Currency = Tokens;
	type InspectRegistry = Reg;
	type AMM = Venue;
	type EdToRefundCalculator = Refund;
	type DefaultRoutePoolType = Default0;
	type TechnicalOrigin = frame_system::EnsureRoot<u64>;
	type WeightInfo = ();
}
type Exchanger = XcmAssetExchanger<Test, Temp, Conv, Tokens>;
/// assets without a currency, or for locations without an account
pub struct Unknown;
fn ukey(a: &Asset, l: &Location) -> Vec<u8> { format!("unknown{:?}{l:?}", if let Fungible(_) = a.fun { (&a.id, None) } else { (&a.id, Some(a.fun)) }).into_bytes() }
fn uget(k: &[u8]) -> u128 { sp_io::storage::get(k).map_or(0, |v| u128::from_le_bytes(v[..].try_into().unwrap())) }
fn size(a: &Asset) -> u128 { if let Fungible(x) = a.fun { x } else { 1 } }
impl UnknownAsset for Unknown {
	fn deposit(a: &Asset, l: &Location) -> DispatchResult { if SET.with(|s| s.borrow().2) { return Err("no unknown assets".into()) } let k = ukey(a, l); sp_io::storage::set(&k, &uget(&k).checked_add(size(a)).ok_or("overflow")?.to_le_bytes()); Ok(()) }
	fn withdraw(a: &Asset, l: &Location) -> DispatchResult { let k = ukey(a, l); let x = uget(&k).checked_sub(size(a)).ok_or("not enough")?; if uget(&k) == 0 { return Err("nothing".into()) } if x == 0 { sp_io::storage::clear(&k) } else { sp_io::storage::set(&k, &x.to_le_bytes()) } Ok(()) }
}
pub struct LocAcc;
fn acct(l: &Location) -> Option<u64> { match l.unpack() { (0, [Junction::AccountIndex64 { index, .. }]) => Some(*index), _ => None } }
fn at(w: u64) -> Location { if w == 0 { Location::new(1, Junction::Parachain(7)) } else { Location::new(0, Junction::AccountIndex64 { network: None, index: w }) } }
impl ConvertLocation<u64> for LocAcc { fn convert_location(l: &Location) -> Option<u64> { acct(l) } }
pub struct Match;
impl MatchesFungible<u128> for Match { fn matches_fungible(a: &Asset) -> Option<u128> { match a.fun { Fungible(x) if cur(&a.id.0).is_some() => Some(x), _ => None } } }
thread_local! { static FAILS: RefCell<Vec<(u32, u64, u128)>> = RefCell::new(vec![]); }
pub struct Handler;
impl OnDepositFail<u32, u64, u128> for Handler {
	fn on_deposit_currency_fail(e: DispatchError, c: u32, w: &u64, x: u128) -> XcmResult { FAILS.with(|f| f.borrow_mut().push((c, *w, x))); <Tokens as MultiCurrency<u64>>::deposit(c, &ALT, x).map_err(|_| XcmError::FailedToTransactAsset(e.into())) }
}
pub struct Reroute;
impl Contains<(u32, u64)> for Reroute { fn contains(x: &(u32, u64)) -> bool { SET.with(|s| s.borrow().1.contains(x)) } }
type Adapter = ReroutingMultiCurrencyAdapter<Tokens, Unknown, Match, u64, LocAcc, u32, Conv, Handler, Reroute, Dest>;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// `x` relative to the reserve of what is given (sell) or wanted (buy)
	Exchange { give: Vec<X>, want: Vec<X>, a: u32, c: u32, x: A, lim: Lim, maximal: bool, plain: bool, origin: bool },
	Deposit { a: X, x: Option<A>, to: u64 },
	Withdraw { a: X, x: Option<A>, from: u64 },
	Transfer { a: X, x: Option<A>, from: u64, to: u64 },
	Route { a: u32, c: u32, via: u32 },
	Broken(bool),
	NoUnknown(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct C3 { pools: Vec<u128>, start: Vec<(u64, u32, u128)>, reroute: Vec<(u32, u64)>, ops: Vec<Op> }
fn with(a: &X, x: &Option<A>, w: u64) -> Asset { match (a, x) { (X::F(a, v), Some(r)) if *a < N => { let y = r.of(Tokens::free_balance(*a, &w)); asset(*a, if y == 0 { *v } else { y }) } (a, _) => xa(a) } }
fn run3(c: &C3, m: &mut Meter) -> Res {
	fresh(frame_system::GenesisConfig::<Test>::default().build_storage().unwrap(), || {
		System::set_block_number(1);
		SET.with(|s| *s.borrow_mut() = (false, c.reroute.clone(), false));
		FAILS.with(|f| f.borrow_mut().clear());
		let mut i = 0;
		let mut l = Ledger::<u64>::default();
		l.eds = (0..N).map(|a| (a, ED[a as usize])).collect();
		for a in 0..N { for z in a + 1..N { for s in [a, z] { let v = c.pools[i % c.pools.len()]; i += 1; if <Tokens as MultiCurrency<u64>>::deposit(s, &pool(a, z), v).is_ok() { l.mint(&pool(a, z), s, v); } } } }
		for (w, a, v) in &c.start { if <Tokens as MultiCurrency<u64>>::deposit(*a, w, *v).is_ok() { must!(l.mint(w, *a, *v).is_some(), "start"); } }
		let mut unknown: BTreeMap<Vec<u8>, u128> = BTreeMap::new();
		let mut who: Vec<u64> = vec![1, 2, 3, TEMP, ALT, TO];
		for a in 0..N { for z in a + 1..N { who.push(pool(a, z)) } }
		let mut refuse_unknown = false;
		for (i, op) in c.ops.iter().enumerate() {
			let desc = || format!("op {i} {op:?}");
			match op {
				Op::Broken(x) => SET.with(|s| s.borrow_mut().0 = *x),
				Op::NoUnknown(x) => { refuse_unknown = *x; SET.with(|s| s.borrow_mut().2 = *x) }
				Op::Route { a, c, via } => { if a != c && via != a && via != c { let _ = Router::force_insert_route(RawOrigin::Root.into(), AssetPair::new(*a, *c), vec![Trade { pool: PoolType::XYK, asset_in: *a, asset_out: *via }, Trade { pool: PoolType::Omnipool, asset_in: *via, asset_out: *c }].try_into().unwrap()); } }
				Op::Exchange { give, want, a, c: z, x, lim, maximal, plain, origin } => {
					let sell = *maximal;
					// what the router itself makes of the trade for somebody with enough of the asset
					let probe = |x: u128, limit: u128| -> Option<(u128, u128)> { frame_support::storage::with_transaction_unchecked(|| {
						let r = (|| {
							let own = if sell { x } else { limit };
							<Tokens as MultiCurrency<u64>>::deposit(*a, &1234, own).ok()?;
							let o = RuntimeOrigin::from(Some(1234));
							if sell { Router::sell(o, *a, *z, x, limit, vec![]).ok()? } else { Router::buy(o, *a, *z, x, limit, vec![]).ok()? }
							Some((own - Tokens::free_balance(*a, &1234), Tokens::free_balance(*z, &1234)))
						})();
						sp_runtime::TransactionOutcome::Rollback(r)
					}) };
					let big = 1u128 << 100;
					let x = x.of(if sell { Tokens::free_balance(*a, &pool(*a, *z)) } else { Tokens::free_balance(*z, &pool(*a, *z)) }).max(1);
					let (g, w, limit) = if sell { let t = lim.min(probe(x, 0).map(|t| t.1)); (asset(*a, x), asset(*z, t), t) } else { let t = lim.max(probe(x, big).map(|t| t.0)).min(big).max(1); (asset(*a, t), asset(*z, x), t) };
					let (mut gs, mut ws): (Vec<Asset>, Vec<Asset>) = (vec![g.clone()], vec![w.clone()]);
					if !plain { gs = give.iter().map(xa).chain(gs).take(2).collect(); ws = want.iter().map(xa).chain(ws).take(2).collect(); }
					let (gs, ws) = (AssetsInHolding::from(gs), Assets::from(ws));
					let single = gs == AssetsInHolding::from(g.clone()) && ws.len() == 1 && ws.get(0) == Some(&w);
					if !single && gs.len() == 1 && ws.len() == 1 { continue } // another ordinary exchange
					let outcome = if single && *a < N && *z < N && a != z { probe(x, limit) } else { None };
					let before: Vec<u128> = vec![l.total(*a), l.total(*z)];
					let got = no_panic(|| atomic(desc, || Exchanger::exchange_asset(if *origin { Some(Location::here()) } else { None }.as_ref(), gs.clone(), &ws, *maximal)))??;
					match (&outcome, &got) {
						(None, Err(e)) => must!(e == &gs, "{}: refused but returned {e:?} of {gs:?}", desc()),
						(None, Ok(o)) => return Err(format!("{}: gave {gs:?} for {o:?}, must be refused", desc())),
						(Some(_), Err(_)) => return Err(format!("{}: refused", desc())),
						(Some((paid, got_)), Ok(o)) => {
							let mut want = AssetsInHolding::from(asset(*z, *got_));
							let left = if sell { x } else { limit } - paid;
							if left > 0 { want.subsume(asset(*a, left)); }
							must!(o == &want, "{}: got {o:?}, must be {want:?}", desc());
							// the assets moved between the message and the pools
							m.nontrivial();
							m.label(if sell { "sold" } else if left > 0 { "bought with change" } else { "bought with everything" });
							for w in &who { for s in 0..N { let v = Tokens::free_balance(s, w); let old = l.get(w, s); if *w >= POOL { if v > old { let d = v - old; l.bal.insert((*w, s), v); *l.issued.entry(s).or_default() += d } else if v < old { l.bal.insert((*w, s), v); *l.issued.entry(s).or_default() -= old - v; } } } }
							must!(l.total(*a) == before[0] + paid && l.total(*z) == before[1] - got_, "{}: pools changed by another amount than was exchanged", desc());
						}
					}
					must!((0..N).all(|s| Tokens::free_balance(s, &TEMP) == l.get(&TEMP, s)), "{}: something was left in the temporary account", desc());
				}
				Op::Deposit { a, x, to } => {
					let s = with(a, x, *to);
					let dest = at(*to);
					let fails = FAILS.with(|f| std::mem::take(&mut *f.borrow_mut())).len();
					must!(fails == 0, "{}: unexpected failure handling", desc());
					let got = no_panic(|| atomic(desc, || Adapter::deposit_asset(&s, &dest, Some(&ctx()))))??;
					let fails = FAILS.with(|f| std::mem::take(&mut *f.borrow_mut()));
					let want = match (*to, cur(&s.id.0), s.fun) {
						(w, Some(q), Fungible(v)) if w != 0 => {
							let r = c.reroute.contains(&(q, w));
							let d = if r { TO } else { w };
							m.label(if r { "deposit rerouted" } else { "deposit" });
							m.nontrivial();
							if l.mint(&d, q, v).is_some() { must!(fails.is_empty(), "{}: failure handler ran", desc()); Some(()) } else { must!(fails == vec![(q, w, v)], "{}: failure handler ran for {fails:?}", desc()); m.label("deposit failed"); l.mint(&ALT, q, v) }
						}
						_ => if refuse_unknown { None } else { m.label("unknown asset deposited"); let k = ukey(&s, &dest); match unknown.get(&k).copied().unwrap_or(0).checked_add(size(&s)) { Some(v) => { unknown.insert(k, v); Some(()) } None => None } },
					};
					agree(desc, &got, &want)?;
				}
				Op::Withdraw { a, x, from } => {
					let s = with(a, x, *from);
					let got = no_panic(|| atomic(desc, || Adapter::withdraw_asset(&s, &at(*from), Some(&ctx()))))??;
					let k = ukey(&s, &at(*from));
					let have = unknown.get(&k).copied().unwrap_or(0);
					let want = if have > 0 && have >= size(&s) { if have == size(&s) { unknown.remove(&k); } else { unknown.insert(k, have - size(&s)); } m.label("unknown asset withdrawn"); Some(()) } else {
						match (*from, cur(&s.id.0), s.fun) { (w, Some(q), Fungible(v)) if w != 0 => l.burn(&w, q, v), _ => None }
					};
					agree(desc, &got, &want)?;
					if let Ok(h) = got { must!(h == AssetsInHolding::from(s.clone()), "{}: withdrew {h:?}", desc()); m.label("withdrawn"); }
				}
				Op::Transfer { a, x, from, to } => {
					let s = with(a, x, *from);
					let got = no_panic(|| atomic(desc, || Adapter::transfer_asset(&s, &at(*from), &at(*to), &ctx())))??;
					let want = match (*from, *to, cur(&s.id.0), s.fun) {
						(f, t, Some(q), Fungible(v)) if f != 0 && t != 0 => { let r = c.reroute.contains(&(q, t)); if r { m.label("transfer rerouted") } l.mv(q, &f, &if r { TO } else { t }, v) }
						_ => None,
					};
					agree(desc, &got, &want)?;
					if let Ok(h) = got { must!(h == AssetsInHolding::from(s.clone()), "{}: moved {h:?}", desc()); m.label("transferred"); }
				}
			}
			same_ledger(&l, &who, &[0, 1, 2, 3], |a, w| Tokens::free_balance(a, w), |a| Tokens::total_issuance(a)).map_err(|e| format!("{}: {e}", desc()))?;
			let code: BTreeMap<Vec<u8>, u128> = sp_io::storage::snapshot().into_iter().filter(|(k, _)| k.starts_with(b"unknown")).map(|(k, _)| { let v = uget(&k); (k, v) }).collect();
			ensure_eq!(code, unknown, "{}: unknown assets", desc());
		}
		Ok(())
	})
}

fn main() {
	let id = std::env::args().nth(1).expect("property");
	let mut c = Ctx::new(&id);
	c.assume("XCM version 4 locations, assets and instructions are data types rebuilt for this harness; there is no XCM executor");
	let xf = || (0u32..6, prop_oneof![3 => mag(1, 1 << 100).boxed(), 2 => (1u128..5).boxed()]).prop_map(|(a, v)| X::F(a, v));
	let xany = move || prop_oneof![5 => xf().boxed(), 2 => (4u32..6, 1u128..4).prop_map(|(a, v)| X::F(a, v)).boxed(), 1 => (0u32..6, 0u128..3).prop_map(|(a, i)| X::N(a, i)).boxed()];
	match id.as_str() {
		"C48" => {
			let price = || prop_oneof![4 => mag(1_000_000_000_000, 1_000_000_000_000_000_000_000_000), 1 => Just(1_000_000_000_000_000_000u128), 1 => mag(0, 1 << 120)];
			let w = || prop_oneof![4 => (0u64..2_000_000_000, 0u64..100_000), 1 => (any::<u64>().prop_map(|x| x >> 20), any::<u64>().prop_map(|x| x >> 20)), 1 => Just((0u64, 0u64))];
			let buy = move || (w(), prop_oneof![5 => proptest::collection::vec(xany(), 1..2), 2 => proptest::collection::vec(xany(), 0..4)], prop::option::weighted(0.6, prop_oneof![3 => Just(0i8), 2 => 1i8..5, 1 => Just(-1i8)])).prop_map(|(w, pay, exact)| T::Buy { w, pay, exact });
			let op = move || prop_oneof![6 => buy().boxed(), 5 => w().prop_map(T::Refund).boxed(), 1 => (0u32..5, prop::option::weighted(0.8, price())).prop_map(|(a, p)| T::Price(a, p)).boxed()];
			c.check("weight trader", "weight bought in several assets at moving prices and refunded in steps; non-trivial: weight was bought at least twice and something refunded", 40_000, 1_200_000, move || ((mag(0, 1 << 40), mag(0, 1 << 40)), proptest::collection::vec(prop::option::weighted(0.9, price()), 4), proptest::collection::vec(op(), 1..14), prop::bool::weighted(0.1)).prop_map(|(coef, prices, ops, refuse)| C1 { coef, prices, ops, refuse }), run1);
		}
		"C49" => {
			let leaf = || prop_oneof![60 => 0u8..SAFE, 1 => SAFE..46].prop_map(Tree::Leaf);
			let tree = move || leaf().prop_recursive(7, 60, 6, move |inner| (0u8..3, proptest::collection::vec(inner, 0..6)).prop_map(|(k, v)| Tree::Nest(k, v)));
			let d = || prop_oneof![3 => Just(0i8), 2 => Just(-1i8), 2 => Just(1i8), 2 => 2i8..100];
			c.check("message filter", "message trees with every instruction and limits around what they need; non-trivial: a nested message not from root", 60_000, 2_000_000, move || (proptest::collection::vec(tree(), 0..8), any::<u64>(), prop_oneof![1 => Just(0u8), 6 => 1u8..5], d(), d()).prop_map(|(t, r, who, dd, dc)| C2 { t, r, who, dd, dc }), run2);
		}
		_ => {
			let who = || prop_oneof![8 => 1u64..=3, 1 => Just(0u64)];
			let op = move || prop_oneof![
				8 => (proptest::collection::vec(xany(), 0..2), proptest::collection::vec(xany(), 0..2), 0u32..5, 0u32..5, small_amt(), lim(), any::<bool>(), prop::bool::weighted(0.85), any::<bool>()).prop_map(|(give, want, a, c, x, lim, maximal, plain, origin)| Op::Exchange { give, want, a, c, x, lim, maximal, plain, origin }),
				5 => (xany(), prop::option::of(amt()), who()).prop_map(|(a, x, to)| Op::Deposit { a, x, to }),
				4 => (xany(), prop::option::of(amt()), who()).prop_map(|(a, x, from)| Op::Withdraw { a, x, from }),
				4 => (xany(), prop::option::of(amt()), who(), who()).prop_map(|(a, x, from, to)| Op::Transfer { a, x, from, to }),
				1 => (0u32..4, 0u32..4, 0u32..4).prop_map(|(a, c, via)| Op::Route { a, c, via }),
				1 => prop::bool::weighted(0.2).prop_map(Op::Broken),
				1 => prop::bool::weighted(0.2).prop_map(Op::NoUnknown),
			];
			c.check("assets of messages", "histories of exchanges, deposits, withdrawals and transfers over known and unknown assets; non-trivial: an exchange or a deposit of a known asset went through", 12_000, 400_000, move || (proptest::collection::vec(mag(1 << 20, 1 << 60), 12), proptest::collection::vec((1u64..=3, 0u32..N, prop_oneof![6 => mag(1, 1 << 60), 1 => mag(1 << 120, u128::MAX)]), 0..8), proptest::collection::vec((0u32..N, 1u64..=3), 0..5), proptest::collection::vec(op(), 1..20)).prop_map(|(pools, start, reroute, ops)| C3 { pools, start, reroute, ops }), run3);
		}
	}
	std::process::exit(c.finish());
}
