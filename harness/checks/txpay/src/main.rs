use codec::Encode;
use frame_support::dispatch::{DispatchErrorWithPostInfo, DispatchResultWithPostInfo, PostDispatchInfo};
use frame_support::traits::{Contains, Hooks};
use frame_support::weights::{IdentityFee, Weight};
use frame_system::RawOrigin;
use hydra_dx_math::ema::EmaPrice;
use hydradx_traits::evm::InspectEvmAccounts;
use hydradx_traits::router::{RouteProvider, Trade};
use hydradx_traits::{AccountFeeCurrency, NativePriceOracle, OraclePeriod, PriceOracle};
use kit::*;
use orml_traits::currency::MutationHooks;
use orml_traits::GetByKey;
use pallet_currencies::BasicCurrencyAdapter;
use pallet_transaction_multi_payment as mp;
use mp::{AddTxAssetOnAccount, DepositAll, EVMPermit, Error, Event as E, PaymentInfo, RemoveTxAssetOnKilled, TransferFees};
use pallet_transaction_payment::OnChargeTransaction;
use sp_core::{H160, H256, U256 as CU256};
use sp_runtime::traits::ValidateUnsigned;
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError, ValidTransaction};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies, TxPay: pallet_transaction_payment, Pay: pallet_transaction_multi_payment, Utility: pallet_utility });
const EVM: u32 = 3;
const RECEIVER: u64 = 9;
const N: u32 = 5; // currencies; 0 is the native one
#[derive(Clone, Debug, Default)]
struct W { eds: [u128; 5], oracle: BTreeMap<u32, (u128, u128)>, permit: (u8, u8), seen: Vec<Seen>, errors: u32 }
#[derive(Clone, Debug, PartialEq)]
struct Seen { from: H160, to: H160, data: Vec<u8>, value: CU256, gas: u64, price: CU256, rest: (Option<CU256>, Option<CU256>, usize), currency: Option<u32> }
thread_local! { static WORLD: RefCell<W> = RefCell::new(W::default()); }
fn world<R>(f: impl FnOnce(&mut W) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
system_config!(Test, u64, pallet_balances::AccountData<u128>);
pub struct Eds;
impl GetByKey<u32, u128> for Eds { fn get(a: &u32) -> u128 { world(|w| w.eds[*a as usize % 5]) } }
parameter_types! { pub NativeEd: u128 = world(|w| w.eds[0]); pub NativeId: u32 = 0; pub EvmId: u32 = EVM; pub Receiver: u64 = RECEIVER; }
pub struct CurrencyHooks;
impl MutationHooks<u64, u32, u128> for CurrencyHooks {
	type OnDust = ();
	type OnSlash = ();
	type PreDeposit = ();
	type PostDeposit = ();
	type PreTransfer = ();
	type PostTransfer = ();
	type OnNewTokenAccount = AddTxAssetOnAccount<Test>;
	type OnKilledTokenAccount = RemoveTxAssetOnKilled<Test>;
}
tokens_config!(Test, Eds, Nothing, CurrencyHooks);
impl pallet_balances::Config for Test {
	type MaxLocks = ();
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = NativeEd;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ConstU32<3>;
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_currencies::Config for Test { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Test, Balances, i128, u64>; type GetNativeCurrencyId = NativeId; type WeightInfo = (); }
impl pallet_utility::Config for Test { type RuntimeEvent = RuntimeEvent; type RuntimeCall = RuntimeCall; type PalletsOrigin = OriginCaller; type WeightInfo = (); }
impl pallet_transaction_payment::Config for Test { type RuntimeEvent = RuntimeEvent; type OnChargeTransaction = Charge; type LengthToFee = IdentityFee<u128>; type OperationalFeeMultiplier = (); type WeightToFee = IdentityFee<u128>; type FeeMultiplierUpdate = (); }
type Charge = TransferFees<Currencies, DepositAll<Test>, Receiver>;
impl mp::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type AcceptedCurrencyOrigin = frame_system::EnsureRoot<u64>;
	type Currencies = Currencies;
	type RouteProvider = Routes;
	type OraclePriceProvider = Oracle;
	type WeightInfo = ();
	type WeightToFee = IdentityFee<u128>;
	type NativeAssetId = NativeId;
	type EvmAssetId = EvmId;
	type InspectEvmAccounts = Evm;
	type EvmPermit = Permits;
	type TryCallCurrency<'a> = mp::TryCallCurrency<Test>;
}
pub struct Routes;
impl RouteProvider<u32> for Routes {}
pub struct Oracle;
impl PriceOracle<u32> for Oracle {
	type Price = EmaPrice;
	fn price(r: &[Trade<u32>], p: OraclePeriod) -> Option<EmaPrice> {
		if r.len() != 1 || r[0].asset_out != 0 || !matches!(p, OraclePeriod::Short) { return None }
		world(|w| w.oracle.get(&r[0].asset_in).map(|(n, d)| EmaPrice::new(*n, *d)))
	}
}
/// the accounts 3 and 4 are those of EVM addresses
pub struct Evm;
impl InspectEvmAccounts<u64, H160> for Evm {
	fn is_evm_account(w: u64) -> bool { w == 3 || w == 4 }
	fn evm_address(_: &impl AsRef<[u8; 32]>) -> H160 { H160::zero() }
	fn truncated_account_id(e: H160) -> u64 { e.to_low_u64_be() }
	fn bound_account_id(_: H160) -> Option<u64> { None }
	fn account_id(e: H160) -> u64 { e.to_low_u64_be() }
	fn can_deploy_contracts(_: H160) -> bool { false }
}
const MARK: &[u8] = b"charged by the permit";
const GAS_PRICE: u64 = 77;
pub struct Permits;
impl EVMPermit for Permits {
	fn validate_permit(_: H160, _: H160, _: Vec<u8>, _: CU256, _: u64, _: CU256, _: u8, _: H256, _: H256) -> DispatchResult {
		match world(|w| w.permit.0) { 1 => Err(Error::<Test>::EvmPermitExpired.into()), 2 => Err(Error::<Test>::EvmPermitInvalid.into()), _ => Ok(()) }
	}
	fn dispatch_permit(from: H160, to: H160, data: Vec<u8>, value: CU256, gas: u64, price: CU256, a: Option<CU256>, b_: Option<CU256>, l: Vec<(H160, Vec<H256>)>) -> DispatchResultWithPostInfo {
		let currency = Pay::tx_fee_currency_override(from.to_low_u64_be());
		let n = sp_io::storage::get(MARK).map_or(0, |x| x[0]);
		sp_io::storage::set(MARK, &[n.wrapping_add(1)]);
		world(|w| w.seen.push(Seen { from, to, data, value, gas, price, rest: (a, b_, l.len()), currency }));
		let post_info = PostDispatchInfo { actual_weight: Some(Weight::from_parts(gas / 2, 0)), pays_fee: Default::default() };
		match world(|w| w.permit.1) {
			1 => Err(DispatchErrorWithPostInfo { post_info, error: Error::<Test>::EvmPermitRunnerError.into() }),
			2 => Err(DispatchErrorWithPostInfo { post_info, error: Error::<Test>::EvmPermitCallExecutionError.into() }),
			_ => Ok(post_info),
		}
	}
	fn gas_price() -> (CU256, Weight) { (GAS_PRICE.into(), Weight::zero()) }
	fn dispatch_weight(_: u64) -> Weight { Weight::zero() }
	fn permit_nonce(a: H160) -> CU256 { (a.to_low_u64_be() + 10).into() }
	fn on_dispatch_permit_error() { world(|w| w.errors += 1) }
}

/// what the transaction is
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tx { Other, Set(u32), Batch(u8, Vec<Option<u32>>), Nested(u8, u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Between { Nothing, Spend(u64, A), Oracle(u32), SetCurrency(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// `x` relative to what the payer owns of the currency it pays with; `used` and `tip` in ppm
	Fee { who: u64, tx: Tx, x: A, used: u32, tip: u32, then: Between },
	SetCurrency { who: u64, c: u32 },
	Add { root: bool, c: u32, price: u128 },
	Remove { root: bool, c: u32 },
	Reset { root: bool, who: u64 },
	Send { who: u64, to: u64, c: u32, x: A },
	Oracle { c: u32, price: Option<(u128, u128)> },
	Block { idle: bool },
	Permit { who: u64, tx: Option<Tx>, valid: u8, out: u8, none: bool, gas: u64 },
}
fn who() -> impl Strategy<Value = u64> { 1u64..=4 }
fn cur() -> impl Strategy<Value = u32> { prop_oneof![1 => Just(0u32), 6 => 1u32..N] }
fn price() -> BoxedStrategy<u128> { prop_oneof![4 => mag(E18 / 1000, E18 * 1000), 1 => Just(E18), 1 => mag(0, u128::MAX)].boxed() }
fn ratio() -> BoxedStrategy<(u128, u128)> { prop_oneof![6 => (mag(1, 1 << 40), mag(1, 1 << 40)), 1 => (mag(0, u128::MAX), mag(0, u128::MAX))].boxed() }
fn tx() -> BoxedStrategy<Tx> { prop_oneof![5 => Just(Tx::Other), 3 => cur().prop_map(Tx::Set), 3 => (0u8..3, proptest::collection::vec(prop::option::of(cur()), 0..3)).prop_map(|(k, v)| Tx::Batch(k, v)), 1 => (0u8..3, cur()).prop_map(|(k, c)| Tx::Nested(k, c))].boxed() }
fn op() -> impl Strategy<Value = Op> {
	let then = || prop_oneof![6 => Just(Between::Nothing), 2 => (who(), prop_oneof![2 => Just(A::Part(1_000_000)), 1 => amt()]).prop_map(|(w, x)| Between::Spend(w, x)), 1 => cur().prop_map(Between::Oracle), 1 => cur().prop_map(Between::SetCurrency)];
	let fee = || prop_oneof![4 => (1u32..300_000).prop_map(A::Part), 2 => (-3i16..=1).prop_map(A::Off), 1 => mag(0, 1 << 60).prop_map(A::Abs)];
	let used = || prop_oneof![3 => 0u32..=1_000_000, 1 => Just(1_000_000u32), 1 => Just(0u32), 2 => 999_990u32..1_000_000];
	prop_oneof![
		12 => (who(), tx(), fee(), used(), prop_oneof![2 => Just(0u32), 1 => 0u32..=1_000_000], then()).prop_map(|(who, tx, x, used, tip, then)| Op::Fee { who, tx, x, used, tip, then }),
		4 => (who(), cur()).prop_map(|(who, c)| Op::SetCurrency { who, c }),
		2 => (prop::bool::weighted(0.9), cur(), price()).prop_map(|(root, c, price)| Op::Add { root, c, price }),
		1 => (prop::bool::weighted(0.9), cur()).prop_map(|(root, c)| Op::Remove { root, c }),
		2 => (prop::bool::weighted(0.9), who()).prop_map(|(root, who)| Op::Reset { root, who }),
		4 => (who(), prop_oneof![who().boxed(), (5u64..8).boxed()], cur(), prop_oneof![2 => Just(A::Part(1_000_000)), 3 => amt()]).prop_map(|(who, to, c, x)| Op::Send { who, to, c, x }),
		3 => (cur(), prop::option::weighted(0.8, ratio())).prop_map(|(c, price)| Op::Oracle { c, price }),
		3 => prop::bool::weighted(0.2).prop_map(|idle| Op::Block { idle }),
		3 => (who(), prop::option::weighted(0.8, tx()), prop_oneof![4 => Just(0u8), 2 => 1u8..3], prop_oneof![3 => Just(0u8), 2 => 1u8..3], prop::bool::weighted(0.9), any::<u64>()).prop_map(|(who, tx, valid, out, none, gas)| Op::Permit { who, tx, valid, out, none, gas }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { eds: [u128; 5], start: Vec<(u64, u32, u128)>, accepted: Vec<(u32, u128)>, chosen: Vec<(u64, u32)>, oracle: Vec<(u32, (u128, u128))>, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	let ed = || prop_oneof![2 => Just(1u128), 4 => 2u128..2000, 1 => mag(1, 1 << 60)];
	let bal = prop_oneof![8 => mag(1 << 30, 1 << 60), 1 => mag(1, 1 << 126), 1 => mag(1, 1 << 12)];
	([ed(), ed(), ed(), ed(), ed()], proptest::collection::vec((1u64..5, 0u32..N, bal), 3..14), proptest::collection::vec((1u32..N, price()), 0..4), proptest::collection::vec((1u64..5, cur()), 0..4), proptest::collection::vec((1u32..N, ratio()), 0..4), proptest::collection::vec(op(), 1..n))
		.prop_map(|(eds, start, accepted, chosen, oracle, ops)| Case { eds, start, accepted, chosen, oracle, ops })
}
const E18: u128 = 1_000_000_000_000_000_000;
#[derive(Clone, Debug, Default)]
struct M { bal: BTreeMap<(u64, u32), u128>, issued: BTreeMap<u32, u128>, accepted: BTreeMap<u32, u128>, cache: BTreeMap<u32, u128>, chosen: BTreeMap<u64, u32>, oracle: BTreeMap<u32, u128> }
impl M {
	fn get(&self, w: u64, c: u32) -> u128 { self.bal.get(&(w, c)).copied().unwrap_or(0) }
	fn ed(&self, c: u32) -> u128 { world(|w| w.eds[c as usize]) }
	fn issue(&self, c: u32) -> u128 { self.issued.get(&c).copied().unwrap_or(0) }
	/// a balance changes; the fee currency follows the token account
	fn put(&mut self, w: u64, c: u32, v: u128) {
		let old = self.get(w, c);
		if c == 0 && v < self.ed(0) && v > 0 { self.issued.insert(0, self.issue(0) - v); return self.put(w, c, 0) }
		if v == 0 { self.bal.remove(&(w, c)); } else { self.bal.insert((w, c), v); }
		if c == 0 { return }
		if old == 0 && v > 0 {
			if !self.chosen.contains_key(&w) && self.accepted.contains_key(&c) && self.get(w, 0) == 0 { self.chosen.insert(w, c); }
		} else if old > 0 && v == 0 {
			let alive = self.bal.keys().any(|(x, _)| *x == w);
			if !alive || self.chosen.get(&w).map_or(false, |c| self.get(w, *c) == 0) { self.chosen.remove(&w); }
		}
	}
	fn withdraw(&mut self, c: u32, w: u64, x: u128) -> Option<()> {
		if x == 0 { return Some(()) }
		let n = self.get(w, c).checked_sub(x)?;
		self.issued.insert(c, self.issue(c) - x);
		self.put(w, c, n);
		Some(())
	}
	fn deposit(&mut self, c: u32, w: u64, x: u128) -> Option<()> {
		if x == 0 { return Some(()) }
		let n = self.get(w, c).checked_add(x)?;
		let i = self.issue(c).checked_add(x)?;
		if x < self.ed(c) && self.get(w, c) == 0 { return None }
		self.issued.insert(c, i);
		self.put(w, c, n);
		Some(())
	}
	fn mv(&mut self, c: u32, w: u64, t: u64, x: u128) -> Option<()> {
		if x == 0 || w == t { return Some(()) }
		let n = self.get(w, c).checked_sub(x)?;
		let m = self.get(t, c).checked_add(x)?;
		if m < self.ed(c) { return None }
		// the sender's account is written first
		self.put(w, c, n);
		self.put(t, c, m);
		Some(())
	}
	fn currency(&self, w: u64) -> u32 { self.chosen.get(&w).copied().unwrap_or(0) }
	fn price(&self, c: u32) -> Option<u128> {
		if c == 0 { return Some(E18) }
		self.cache.get(&c).or_else(|| self.oracle.get(&c)).or_else(|| self.accepted.get(&c)).copied()
	}
	fn convert(fee: u128, p: u128) -> Option<u128> { quo(b(fee) * b(p), b(E18)).map(|x| x.max(1)) }
}
fn call(t: &Tx) -> RuntimeCall {
	let set = |c: u32| RuntimeCall::Pay(mp::Call::set_currency { currency: c });
	let remark = || RuntimeCall::System(frame_system::Call::remark { remark: vec![1] });
	let batch = |k: u8, calls: Vec<RuntimeCall>| RuntimeCall::Utility(match k { 0 => pallet_utility::Call::batch { calls }, 1 => pallet_utility::Call::batch_all { calls }, _ => pallet_utility::Call::force_batch { calls } });
	match t {
		Tx::Other => remark(),
		Tx::Set(c) => set(*c),
		Tx::Batch(k, v) => batch(*k, v.iter().map(|c| c.map_or_else(remark, set)).collect()),
		Tx::Nested(k, c) => batch(*k, vec![batch(0, vec![set(*c)])]),
	}
}
/// the currency named by the transaction itself
fn named(t: &Tx) -> Option<u32> { match t { Tx::Set(c) => Some(*c), Tx::Batch(_, v) => v.first().copied().flatten(), _ => None } }
fn set_oracle(model: &mut M, c: u32, r: Option<(u128, u128)>) -> Res {
	world(|w| match r { Some(r) => { w.oracle.insert(c, r); } None => { w.oracle.remove(&c); } });
	model.oracle.remove(&c);
	if let Some((n, d)) = r {
		let d = d.max(1);
		if let Some(p) = quo(b(n) * b(E18), b(d)) {
			// to the nearest or rounded down
			let got = if c == 0 { Some(p) } else {
				let cached = mp::AcceptedCurrencyPrice::<Test>::take(c);
				let r = <Pay as NativePriceOracle<u32, FixedU128>>::price(c).map(|x| x.into_inner());
				if let Some(x) = cached { mp::AcceptedCurrencyPrice::<Test>::insert(c, x); }
				r
			};
			let Some(got) = got else { return Err(format!("no price for {n}/{d}")) };
			ensure_that!(got == p || got == p + 1, "price of {n}/{d}: {got}, expected {p}");
			model.oracle.insert(c, got);
		}
	}
	Ok(())
}
fn run(c: &Case, m: &mut Meter) -> Res {
	world(|w| *w = W { eds: c.eds, ..Default::default() });
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M::default();
	let mut bal: BTreeMap<(u64, u32), u128> = BTreeMap::new();
	for a in 0..N { bal.insert((RECEIVER, a), c.eds[a as usize]); }
	for (w, a, v) in &c.start { bal.insert((*w, *a), (*v).max(c.eds[*a as usize])); }
	for ((_, a), v) in &bal { model.issued.insert(*a, model.issue(*a) + v); }
	model.bal = bal.clone();
	pallet_balances::GenesisConfig::<Test> { balances: bal.iter().filter(|x| x.0 .1 == 0).map(|x| (x.0 .0, *x.1)).collect() }.assimilate_storage(&mut st).unwrap();
	orml_tokens::GenesisConfig::<Test> { balances: bal.iter().filter(|x| x.0 .1 > 0).map(|x| (x.0 .0, x.0 .1, *x.1)).collect() }.assimilate_storage(&mut st).unwrap();
	mp::GenesisConfig::<Test> { currencies: c.accepted.iter().map(|(a, p)| (*a, FixedU128::from_inner(*p))).collect(), account_currencies: c.chosen.clone() }.assimilate_storage(&mut st).unwrap();
	model.accepted = c.accepted.iter().copied().collect();
	fresh(st, || {
		System::set_block_number(1);
		// genesis of the tokens runs the account hooks too
		model.chosen = mp::AccountCurrencyMap::<Test>::iter().collect();
		for (w, x) in &c.chosen { if c.chosen.iter().filter(|y| y.0 == *w).last() == Some(&(*w, *x)) { ensure_eq!(model.chosen.get(w), Some(x), "currency at genesis"); } }
		for (a, r) in &c.oracle { set_oracle(&mut model, *a, Some(*r))?; }
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let want = step(o, &what, &mut model, m)?;
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Pay(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, want.into_iter().collect::<Vec<_>>(), "{}: events", what());
			for a in 0..N {
				for w in 1..=9u64 { ensure_eq!(<Currencies as MultiCurrency<u64>>::total_balance(a, &w), model.get(w, a), "{}: balance of {w} in {a}", what()); }
				ensure_eq!(<Currencies as MultiCurrency<u64>>::total_issuance(a), model.issue(a), "{}: issuance of {a}", what());
				ensure_eq!(Pay::contains(&a), model.accepted.contains_key(&a), "{}: accepts {a}", what());
				ensure_eq!(<Pay as GetByKey<u32, Option<FixedU128>>>::get(&a).map(|x| x.into_inner()), model.cache.get(&a).copied(), "{}: price of {a} in this block", what());
				let p = if a == 0 { Some(E18) } else { model.cache.get(&a).or_else(|| model.oracle.get(&a)).copied() };
				ensure_eq!(<Pay as NativePriceOracle<u32, FixedU128>>::price(a).map(|x| x.into_inner()), p, "{}: price of {a}", what());
			}
			let all: BTreeMap<u32, u128> = mp::AcceptedCurrencies::<Test>::iter().map(|(a, p)| (a, p.into_inner())).collect();
			ensure_eq!(all, model.accepted, "{}: accepted currencies", what());
			let all: BTreeMap<u64, u32> = mp::AccountCurrencyMap::<Test>::iter().collect();
			ensure_eq!(all, model.chosen, "{}: chosen currencies", what());
			for w in 1..=9u64 { ensure_eq!((Pay::account_currency(&w), <Pay as AccountFeeCurrency<u64>>::get(&w)), (model.currency(w), model.currency(w)), "{}: fee currency of {w}", what()); }
			ensure_eq!(mp::TransactionCurrencyOverride::<Test>::iter().count(), 0, "{}: override left", what());
		}
		Ok(())
	})
}
fn sg(w: u64) -> RuntimeOrigin { RuntimeOrigin::from(RawOrigin::Signed(w)) }
fn root(r: bool) -> RuntimeOrigin { if r { RuntimeOrigin::from(RawOrigin::Root) } else { sg(1) } }
fn step(op: &Op, what: &dyn Fn() -> String, model: &mut M, m: &mut Meter) -> Result<Option<E<Test>>, String> {
	let mut n = model.clone();
	let (want, got) = match op {
		Op::SetCurrency { who, c } => (if *c == 0 || n.accepted.contains_key(c) { n.chosen.insert(*who, *c); Some(E::CurrencySet { account_id: *who, asset_id: *c }) } else { None }, atomic(what, || Pay::set_currency(sg(*who), *c))?),
		Op::Add { root: r, c, price } => (if *r && *c > 0 && !n.accepted.contains_key(c) { n.accepted.insert(*c, *price); Some(E::CurrencyAdded { asset_id: *c }) } else { None }, atomic(what, || Pay::add_currency(root(*r), *c, FixedU128::from_inner(*price)))?),
		Op::Remove { root: r, c } => (if *r && *c > 0 && n.accepted.remove(c).is_some() { Some(E::CurrencyRemoved { asset_id: *c }) } else { None }, atomic(what, || Pay::remove_currency(root(*r), *c))?),
		Op::Reset { root: r, who } => (if *r {
			let evm = *who == 3 || *who == 4;
			if evm { n.chosen.insert(*who, EVM); } else { n.chosen.remove(who); }
			Some(E::CurrencySet { account_id: *who, asset_id: if evm { EVM } else { 0 } })
		} else { None }, atomic(what, || Pay::reset_payment_currency(root(*r), *who))?),
		Op::Send { who, to, c, x } => {
			let x = x.of(n.get(*who, *c));
			let r = n.mv(*c, *who, *to, x);
			let got = atomic(what, || <Currencies as MultiCurrency<u64>>::transfer(*c, who, to, x))?;
			agree(what, &got, &r)?;
			if r.is_some() { if n.chosen.get(who) != model.chosen.get(who) { m.label("currency dropped"); } if n.chosen.get(to) != model.chosen.get(to) { m.label("currency given"); } *model = n; }
			return Ok(None)
		}
		Op::Oracle { c, price } => { set_oracle(model, *c, *price).map_err(|e| format!("{}: {e}", what()))?; return Ok(None) }
		Op::Block { idle } => {
			Pay::on_finalize(1);
			ensure_eq!(mp::AcceptedCurrencyPrice::<Test>::iter().count(), 0, "{}: prices of the last block", what());
			model.cache.clear();
			if *idle { return Ok(None) }
			Pay::on_initialize(2);
			for (c, p) in &model.accepted { model.cache.insert(*c, model.oracle.get(c).copied().unwrap_or(*p)); }
			return Ok(None)
		}
		Op::Fee { .. } => { fee(op, what, model, m)?; return Ok(None) }
		Op::Permit { .. } => { permit(op, what, model, m)?; return Ok(None) }
	};
	agree(what, &got, &want)?;
	if want.is_some() { *model = n; }
	Ok(want)
}
fn fee(op: &Op, what: &dyn Fn() -> String, model: &mut M, m: &mut Meter) -> Res {
	let Op::Fee { who, tx, x, used, tip, then } = op else { unreachable!() };
	let (who, call) = (*who, call(tx));
	let cur = named(tx).unwrap_or_else(|| model.currency(who));
	let price = model.price(cur);
	// in native terms
	let fee = match price { Some(p) if p > 0 => x.of(quo(b(model.get(who, cur)) * b(E18), b(p)).unwrap_or(u128::MAX)), _ => x.of(1 << 40) };
	let used = md(fee, *used as u128, 1_000_000).unwrap();
	let tip = md(used, *tip as u128, 1_000_000).unwrap();
	let info = Default::default();
	let mut n = model.clone();
	let want = if fee == 0 { Some(None) } else {
		(|| {
			let p = price?;
			let paid = M::convert(fee, p)?;
			n.withdraw(cur, who, paid)?;
			Some(Some((p, paid)))
		})()
	};
	let got = atomic(what, || <Charge as OnChargeTransaction<Test>>::withdraw_fee(&who, &call, &info, fee, tip))?;
	agree(what, &got, &want)?;
	let Some(want) = want else {
		m.label("cannot pay");
		ensure_eq!(got.err(), Some(TransactionValidityError::Invalid(InvalidTransaction::Payment)), "{}: reason", what());
		return Ok(())
	};
	*model = n;
	let paid = got.ok().flatten();
	let expected = want.map(|(p, paid)| if cur == 0 { PaymentInfo::Native(fee) } else { PaymentInfo::NonNative(paid, cur, FixedU128::from_inner(p)) });
	ensure_eq!(format!("{paid:?}"), format!("{expected:?}"), "{}: payment", what());
	// what the transaction itself does meanwhile
	match then {
		Between::Nothing => {}
		Between::Spend(to, x) => {
			let x = x.of(model.get(who, cur));
			let mut n = model.clone();
			let r = n.mv(cur, who, *to, x);
			let got = atomic(what, || <Currencies as MultiCurrency<u64>>::transfer(cur, &who, to, x))?;
			agree(what, &got, &r)?;
			if r.is_some() { *model = n; }
		}
		Between::Oracle(c) => set_oracle(model, *c, Some((3, 7)))?,
		Between::SetCurrency(c) => if Pay::set_currency(sg(who), *c).is_ok() { model.chosen.insert(who, *c); System::reset_events(); },
	}
	let gone = model.get(who, cur) == 0;
	if let Some((p, paid)) = want {
		m.nontrivial();
		m.label(if cur == 0 { "native fee" } else { "fee in a currency" });
		let owed = if cur == 0 { used } else { M::convert(used, p).ok_or("model")? };
		let mut n = model.clone();
		let mut kept = owed;
		// a refund that cannot be made stays with the fee
		if n.deposit(cur, who, paid - owed).is_none() { m.label("no refund to a dead account"); kept = paid; }
		n.deposit(cur, RECEIVER, kept).ok_or_else(|| format!("{}: model", what()))?;
		*model = n;
		if gone && kept < paid { m.label("refund to an emptied account"); }
	}
	let got = atomic(what, || <Charge as OnChargeTransaction<Test>>::correct_and_deposit_fee(&who, &info, &Default::default(), used, tip, paid))?;
	if let Err(e) = got { return Err(format!("{}: a paid transaction became invalid afterwards: {e:?}", what())) }
	Ok(())
}
fn permit(op: &Op, what: &dyn Fn() -> String, model: &mut M, m: &mut Meter) -> Res {
	let Op::Permit { who, tx, valid, out, none, gas } = op else { unreachable!() };
	let (from, to) = (H160::from_low_u64_be(*who), H160::from_low_u64_be(1234));
	let data = match tx { Some(t) => call(t).encode(), None => vec![255, 1, 2] };
	let currency = tx.as_ref().and_then(named).unwrap_or_else(|| model.currency(*who));
	let value = CU256::from(*gas) + CU256::from(5);
	world(|w| { w.permit = (*valid, *out); w.seen.clear(); w.errors = 0; });
	let c: mp::Call<Test> = mp::Call::dispatch_permit { from, to, value, data: data.clone(), gas_limit: *gas, deadline: 9.into(), v: 1, r: H256::zero(), s: H256::zero() };
	let before = state();
	for s in [TransactionSource::Local, TransactionSource::External, TransactionSource::InBlock] {
		let v = Pay::validate_unsigned(s, &c);
		ensure_that!(state() == before, "{}: validation changed the state", what());
		let code = |e: DispatchError| match e { DispatchError::Module(m) => m.error[0], _ => 0 };
		let bad = match (valid, out) { (1, _) => Some(code(Error::<Test>::EvmPermitExpired.into())), (2, _) => Some(code(Error::<Test>::EvmPermitInvalid.into())), (_, 1) => Some(code(Error::<Test>::EvmPermitRunnerError.into())), (_, 2) => Some(code(Error::<Test>::EvmPermitCallExecutionError.into())), _ => None };
		match bad {
			Some(n) => ensure_eq!(v.err(), Some(TransactionValidityError::Invalid(InvalidTransaction::Custom(n))), "{}: validity", what()),
			None => {
				let tag = ValidTransaction::with_tag_prefix("EVMPermit").and_provides((CU256::from(who + 10), from)).priority(0).longevity(64).propagate(true).build();
				ensure_that!(format!("{v:?}") == format!("{tag:?}"), "{}: validity {v:?}", what());
			}
		}
	}
	let wanted = Seen { from, to, data: data.clone(), value, gas: *gas, price: GAS_PRICE.into(), rest: (None, None, 0), currency: Some(currency) };
	let tries = world(|w| std::mem::take(&mut w.seen));
	ensure_eq!(tries, if *valid == 0 { vec![wanted.clone(); 3] } else { vec![] }, "{}: dry run", what());
	ensure_eq!(world(|w| w.errors), 0, "{}: dry run reported an error", what());
	let origin = if *none { RuntimeOrigin::from(RawOrigin::None) } else { sg(*who) };
	let mark = sp_io::storage::get(MARK);
	let got = atomic(what, || Pay::dispatch_permit(origin, from, to, value, data, *gas, 9.into(), 1, H256::zero(), H256::zero()))?;
	if !none { ensure_that!(got.is_err(), "{}: signed", what()); ensure_that!(world(|w| w.seen.is_empty()), "{}: dispatched", what()); return Ok(()) }
	let Ok(post) = got else { return Err(format!("{}: refused {got:?}", what())) };
	let seen = world(|w| std::mem::take(&mut w.seen));
	ensure_eq!(seen, if *valid == 0 { vec![wanted] } else { vec![] }, "{}: dispatch", what());
	ensure_eq!(world(|w| w.errors), (*valid > 0 || *out == 1) as u32, "{}: errors reported", what());
	ensure_eq!(post.actual_weight, if *valid == 0 { Some(Weight::from_parts(gas / 2, 0)) } else { None }, "{}: weight", what());
	// what the dispatch charged stays charged
	ensure_eq!(sp_io::storage::get(MARK) != mark, *valid == 0, "{}: charge", what());
	m.label(if *valid > 0 { "bad permit" } else if *out > 0 { "failed permit" } else { "permit" });
	if *valid == 0 { m.nontrivial(); }
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("balances, tokens and utility by stand-ins, oracle and EVM permits by scripted tables; the fee receiver holds at least the existential deposit");
	c.check("payment", "histories of fee withdrawals and corrections for every kind of call, currency changes, oracle moves, transfers that create and empty accounts, blocks and EVM permits against exact books; non-trivial: a fee was charged or a permit dispatched", 90_000, 1_500_000, || case(24), run);
	std::process::exit(c.finish());
}
