//! What an EVM call costs its sender and where that goes, and which calls are let through to the interpreter.
use crate::*;
use frame_support::traits::OnUnbalanced;
use hydradx_evm::evm::evm_fee::DepositEvmFeeToTreasury;
use pallet_evm::runner::Runner;
use pallet_evm::{Error, OnChargeEVMTransaction};
use pallet_transaction_multi_payment as mp;
use sp_core::H256;
use std::collections::{BTreeMap, BTreeSet};

type F = Fees;
const BASE: u128 = 15_000_000;
const ASSETS: [u32; 5] = [0, 1, 2, WETH, 9];
const TREASURY: [u8; 32] = [7; 32];
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fee { Abs(u128), Big(u128), Of(A), Gas(u64, u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tx { kind: u8, who: u8, to: u8, data: Vec<u8>, value: Fee, gas: u64, max: Option<i64>, tip: Option<u64>, nonce: Option<i8>, list: u8, tx: bool, validate: bool, weight: Option<u64>, proof: Option<u64>, end: End, used: u64, show: Option<u64> }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Mint(u8, u8, u128), Override(u8, u8), Bind(u8), Lock(u8, u8, A), Price(u8, u128, u128), Pay { who: u8, fee: Fee, back: A, big: bool, leave: Option<A>, tip: u8 }, Merge(u8, Vec<u64>), Run(Tx), Nonce(u8, u8), Block(u64) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { eds: Vec<u32>, prices: Vec<(u128, u128)>, ops: Vec<Op> }
fn fee() -> BoxedStrategy<Fee> { prop_oneof![2 => mag(0, 1 << 90).prop_map(Fee::Abs), 3 => amt().prop_map(Fee::Of), 3 => (20_000u64..2_000_000, 0u32..3_000).prop_map(|(g, p)| Fee::Gas(g, p)), 1 => any::<u128>().prop_map(Fee::Big)].boxed() }
fn price() -> BoxedStrategy<(u128, u128)> { (prop_oneof![8 => mag(1, 1 << 60), 1 => Just(0u128), 1 => any::<u128>()], prop_oneof![6 => mag(1, 1 << 60), 1 => 1u128..=u128::MAX]).boxed() }
fn tx() -> BoxedStrategy<Tx> {
	let max = proptest::option::weighted(0.93, prop_oneof![6 => 0i64..20_000_000, 2 => -3i64..3, 1 => Just(-(BASE as i64))]);
	((0u8..3, 0u8..5, 0u8..6, proptest::collection::vec(prop_oneof![Just(0u8), any::<u8>()], 0..40), prop_oneof![3 => Just(Fee::Abs(0)), 1 => fee()], prop_oneof![8 => 30_000u64..3_000_000, 3 => 20_900u64..22_000, 3 => 53_000u64..53_700, 1 => any::<u64>(), 1 => 0u64..21_000], max, proptest::option::weighted(0.4, prop_oneof![0u64..30_000_000, 14_999_990u64..15_000_010])), (proptest::option::weighted(0.3, prop_oneof![4 => Just(0i8), 1 => -2i8..3]), 0u8..3, prop::bool::weighted(0.8), prop::bool::weighted(0.8), proptest::option::weighted(0.2, any::<u64>()), proptest::option::weighted(0.2, any::<u64>()), prop_oneof![6 => Just(End::Ok), 1 => Just(End::Revert), 1 => Just(End::Refused), 1 => Just(End::Fatal)], prop_oneof![10_000u64..60_000, any::<u64>()], proptest::option::weighted(0.4, prop_oneof![0u64..4_000_000, Just(u64::MAX)])))
		.prop_map(|((kind, who, to, data, value, gas, max, tip), (nonce, list, tx, validate, weight, proof, end, used, show))| Tx { kind, who, to, data, value, gas, max, tip, nonce, list, tx, validate, weight, proof, end, used, show }).boxed()
}
fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		4 => (0u8..5, 0u8..5, mag(1, 1 << 100)).prop_map(|(w, a, x)| Op::Mint(w, a, x)),
		3 => (0u8..5, 0u8..6).prop_map(|(w, a)| Op::Override(w, a)),
		1 => (0u8..5).prop_map(Op::Bind),
		1 => (0u8..5, 0u8..4, amt()).prop_map(|(w, a, x)| Op::Lock(w, a, x)),
		1 => (0u8..3, price()).prop_map(|(a, (n, d))| Op::Price(a, n, d)),
		9 => (0u8..5, fee(), amt(), prop::bool::weighted(0.05), proptest::option::weighted(0.25, amt()), 0u8..6).prop_map(|(who, fee, back, big, leave, tip)| Op::Pay { who, fee, back, big, leave, tip }),
		1 => (0u8..5, proptest::collection::vec(1u64..1_000_000_000, 0..4)).prop_map(|(w, v)| Op::Merge(w, v)),
		9 => tx().prop_map(Op::Run),
		1 => (0u8..5, 0u8..4).prop_map(|(w, n)| Op::Nonce(w, n)),
		1 => (20_000u64..16_000_000).prop_map(Op::Block),
	].boxed()
}
fn case() -> BoxedStrategy<Case> { (proptest::collection::vec(prop_oneof![Just(1u32), 1u32..1_000_000], 5), proptest::collection::vec(price(), 3), proptest::collection::vec(op(), 1..30)).prop_map(|(eds, prices, ops)| Case { eds, prices, ops }).boxed() }

#[derive(Clone, Default)]
struct Model { l: Ledger<[u8; 32]>, bound: BTreeSet<H160>, over: BTreeMap<[u8; 32], u32>, locks: BTreeMap<([u8; 32], u32), u128>, prices: BTreeMap<u32, (u128, u128)>, eds: BTreeMap<u32, u128>, block: u64 }
/// ceil(x * n / d), if it is a balance
fn up(x: u128, n: u128, d: u128) -> Option<u128> { let v = (b(x) * b(n) + b(d) - b(1)) / b(d); if v > b(u128::MAX) { None } else { v.to_string().parse().ok() } }
impl Model {
	fn acc(&self, a: H160) -> [u8; 32] { if self.bound.contains(&a) { full(a) } else { plain(a) } }
	fn currency(&self, a: H160) -> u32 { self.over.get(&self.acc(a)).copied().unwrap_or(WETH) }
	fn price(&self, c: u32) -> Option<(u128, u128)> { if c == WETH { Some((1, 1)) } else { self.prices.get(&c).copied() } }
	fn ed(&self, a: u32) -> u128 { self.eds.get(&a).copied().unwrap_or(1) }
	fn real(w: &[u8; 32], a: u32) -> u128 { <Currencies as MultiCurrency<AccountId32>>::total_balance(a, &id(*w)) }
	/// what a fee takes from its payer, or why it cannot be taken
	fn take(&self, a: H160, fee: W) -> Result<Option<(u32, u128)>, &'static str> {
		if fee.is_zero() { return Ok(None) }
		let c = self.currency(a);
		let x = if fee > W::from(u128::MAX) { u128::MAX } else { fee.as_u128() };
		let t = self.price(c).and_then(|(n, d)| up(x, n, d)).filter(|t| *t > 0).ok_or("WithdrawFailed")?;
		let w = self.acc(a);
		let free = self.l.get(&w, c).saturating_sub(self.locks.get(&(w, c)).copied().unwrap_or(0));
		if t > free { return Err("BalanceLow") }
		Ok(Some((c, t)))
	}
	/// Burns from the ledger; what is left below the existential deposit may be swept.
	fn burn(&mut self, w: &[u8; 32], c: u32, t: u128) -> Res {
		self.l.burn(w, c, t).ok_or("model burn")?;
		let rest = self.l.get(w, c);
		if rest > 0 && rest < self.ed(c) && Self::real(w, c) == 0 { self.l.burn(w, c, rest).ok_or("dust")?; }
		Ok(())
	}
	/// Gives back what the call did not use of `t`; the treasury has the rest.
	fn settle(&mut self, w: &[u8; 32], c: u32, t: u128, corrected: W, price: (u128, u128)) -> Result<u128, String> {
		let x = if corrected > W::from(u128::MAX) { u128::MAX } else { corrected.as_u128() };
		let due = up(x, price.0, price.1).map_or(t, |d| d.min(t));
		let back = t - due;
		let got = if back > 0 && self.l.get(w, c) + back >= self.ed(c) { back } else { 0 };
		if got > 0 { self.l.mint(w, c, got).ok_or("refund")?; }
		if t > got { self.l.mint(&TREASURY, c, t - got).ok_or("treasury")?; }
		Ok(got)
	}
}
fn big(f: &Fee, of: u128) -> W { match f { Fee::Abs(x) => W::from(*x), Fee::Big(x) => (W::from(*x) << 64) + W::from(1u64 << 63) * W::from(u64::MAX), Fee::Of(a) => W::from(a.of(of)), Fee::Gas(g, p) => W::from(*g) * W::from(BASE + *p as u128) } }
fn name(e: &Error<Runtime>) -> String { e.name().to_string() }

fn run_case(c: &Case, m: &mut Meter) -> Res {
	let mut o = Model { block: 15_000_000, ..Default::default() };
	for (i, a) in ASSETS.iter().enumerate() { o.eds.insert(*a, c.eds[i] as u128); }
	for (a, p) in [0u32, 1, 2].iter().zip(&c.prices) { o.prices.insert(*a, *p); }
	world(|w| { *w = World::default(); w.prices = o.prices.clone(); w.eds = o.eds.clone(); });
	fresh(genesis(), || {
		for a in ASSETS { mint(&TREASURY, a, 1 << 40); o.l.mint(&TREASURY, a, 1 << 40); }
		for k in 0..5u8 { for a in [0u32, 1, WETH] { if k > 1 { mint(&plain(adr(k)), a, 1 << 80); o.l.mint(&plain(adr(k)), a, 1 << 80); } } }
		let people: Vec<[u8; 32]> = (0..5).flat_map(|k| [plain(adr(k)), full(adr(k))]).chain([TREASURY]).collect();
		for (i, op) in c.ops.iter().enumerate() {
			step(op, &mut o, m).map_err(|e| format!("op {i}: {e}"))?;
			same_ledger(&o.l, &people, &ASSETS, |a, w| Model::real(w, a), |a| <Currencies as MultiCurrency<AccountId32>>::total_issuance(a)).map_err(|e| format!("op {i}: {e}"))?;
		}
		Ok(())
	})
}
fn step(op: &Op, o: &mut Model, m: &mut Meter) -> Res {
	match op {
		Op::Mint(k, a, x) => { let (w, a) = (o.acc(adr(*k)), ASSETS[*a as usize]); if mint(&w, a, *x) { o.l.mint(&w, a, *x); } }
		Op::Override(k, a) => {
			let w = o.acc(adr(*k));
			if *a == 5 { mp::TransactionCurrencyOverride::<Runtime>::remove(id(w)); o.over.remove(&w); } else { mp::TransactionCurrencyOverride::<Runtime>::insert(id(w), ASSETS[*a as usize]); o.over.insert(w, ASSETS[*a as usize]); }
		}
		Op::Bind(k) => if bind(adr(*k)) { o.bound.insert(adr(*k)); },
		Op::Lock(k, a, x) => {
			use orml_traits::MultiLockableCurrency;
			let (w, a) = (o.acc(adr(*k)), ASSETS[*a as usize]);
			let x = x.of(o.l.get(&w, a));
			if x < o.ed(a) || o.l.get(&w, a) < o.ed(a) { return Ok(()) }
			<Currencies as MultiLockableCurrency<AccountId32>>::set_lock(*b"evmlocks", a, &id(w), x).map_err(|e| format!("{e:?}"))?;
			o.locks.insert((w, a), x);
		}
		Op::Price(a, n, d) => { o.prices.insert(*a as u32, (*n, *d)); world(|w| w.prices = o.prices.clone()); }
		Op::Nonce(k, n) => frame_system::Account::<Runtime>::mutate(id(o.acc(adr(*k))), |a| a.nonce = *n as u32),
		Op::Block(x) => { o.block = *x; world(|w| w.block_gas = (*x).into()); }
		Op::Merge(k, parts) => {
			let a = adr(*k);
			let (w, mut all) = (o.acc(a), vec![]);
			for p in parts {
				let fee = W::from(*p);
				if let Ok(Some((cur, t))) = o.take(a, fee) { all.push(F::withdraw_fee(&a, fee).map_err(|e: Error<Runtime>| name(&e))?.ok_or("nothing taken")?); o.burn(&w, cur, t)?; o.l.mint(&TREASURY, cur, t); }
			}
			if let Some(sum) = all.into_iter().reduce(|a, b| a.merge(b)) { DepositEvmFeeToTreasury::on_unbalanced(sum); }
		}
		Op::Pay { who, fee, back, big: huge, leave, tip } => {
			let a = adr(*who);
			let w = o.acc(a);
			let cur = o.currency(a);
			let fee = big(fee, o.l.get(&w, cur));
			let plan = o.take(a, fee);
			let before = state();
			let can = <F as OnChargeEVMTransaction<Runtime>>::can_withdraw(&a, fee);
			eq!("asking changes the state", state() == before, true);
			if !fee.is_zero() { eq!("can the fee be withdrawn", can.is_ok(), plan.is_ok()); }
			let got = frame_support::storage::with_storage_layer(|| <F as OnChargeEVMTransaction<Runtime>>::withdraw_fee(&a, fee).map_err(|e: Error<Runtime>| sp_runtime::DispatchError::Other(match e { Error::BalanceLow => "BalanceLow", Error::WithdrawFailed => "WithdrawFailed", _ => "other" })));
			let (cur, t, info) = match (plan, got) {
				(Err(e), Err(g)) => { m.label(e); eq!("why", g, sp_runtime::DispatchError::Other(e)); eq!("a refused fee leaves no trace", state() == before, true); return Ok(()) }
				(Ok(None), Ok(i)) => { m.label("no fee"); eq!("taken for nothing", i.is_none(), true); eq!("state changed", state() == before, true); let r = <F as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&a, W::zero(), W::zero(), i).map_err(|e: Error<Runtime>| name(&e))?; eq!("left", r.is_none(), true); return Ok(()) }
				(Ok(Some((cur, t))), Ok(Some(i))) => (cur, t, i),
				(p, g) => return Err(format!("taking {fee} from {w:?} in {cur}: {:?}, expected {p:?}", g.map(|i| i.is_some()))),
			};
			o.burn(&w, cur, t)?;
			eq!("taken from the payer", Model::real(&w, cur), o.l.get(&w, cur));
			let price = o.price(cur).unwrap();
			if *tip == 0 {
				<F as OnChargeEVMTransaction<Runtime>>::pay_priority_fee(Some(info));
				o.l.mint(&TREASURY, cur, t).ok_or("treasury")?;
				m.label("tip");
				return Ok(())
			}
			if let Some(x) = leave {
				// the call itself spends
				let x = x.of(o.l.get(&w, cur));
				let r = frame_support::storage::with_storage_layer(|| <Currencies as MultiCurrency<AccountId32>>::transfer(cur, &id(w), &id(TREASURY), x));
				if r.is_ok() && x > 0 { o.l.mint(&TREASURY, cur, x).ok_or("moved")?; o.burn(&w, cur, x)?; }
			}
			let corrected = if *huge { W::MAX } else { let f = if fee > W::from(u128::MAX) { u128::MAX } else { fee.as_u128() }; W::from(back.of(f)) };
			let (mine, pot) = (o.l.get(&w, cur), o.l.get(&TREASURY, cur));
			let r = <F as OnChargeEVMTransaction<Runtime>>::correct_and_deposit_fee(&a, corrected, W::from(BASE), Some(info)).map_err(|e: Error<Runtime>| name(&e))?;
			eq!("a tip is left over", r.is_none(), true);
			let refund = o.settle(&w, cur, t, corrected, price)?;
			let (now, pot2) = (Model::real(&w, cur), Model::real(&TREASURY, cur));
			eq!("given back", now - mine, refund);
			eq!("the treasury's share", pot2 - pot, t - refund);
			if refund > 0 { m.label("refunded"); } else { m.label("kept"); }
			if refund > 0 && refund < t { m.nontrivial() }
		}
		Op::Run(x) => run_tx(x, o, m)?,
	}
	Ok(())
}
fn run_tx(x: &Tx, o: &mut Model, m: &mut Meter) -> Res {
	let a = adr(x.who);
	let w = o.acc(a);
	let cur = o.currency(a);
	let mine = o.l.get(&w, WETH);
	let shown = x.show.map(|s| s as u128 * BASE).unwrap_or(u128::MAX);
	world(|v| { v.gas_used = x.used; v.ends = vec![x.end]; v.runs.clear(); v.asked.clear(); v.balance = Some(shown); });
	let nonce = frame_system::Account::<Runtime>::get(id(w)).nonce;
	let value = big(&x.value, mine);
	let max = x.max.map(|d| W::from((BASE as i128 + d as i128).max(0) as u128));
	let tip = x.tip.map(W::from);
	let given = x.nonce.map(|d| W::from((nonce as i64 + d as i64).max(0) as u64));
	let list: Vec<(H160, Vec<H256>)> = (0..x.list).map(|k| (adr(k), vec![H256::repeat_byte(k); k as usize])).collect();
	let target = if x.kind == 0 { Some(adr(x.to)) } else { None };
	let salt = H256::repeat_byte(x.to);
	// what lets it through
	let zeros = x.data.iter().filter(|b| **b == 0).count() as u64;
	let need = if x.kind == 0 { 21_000 } else { 53_000 } + 4 * zeros + 16 * (x.data.len() as u64 - zeros);
	let base = W::from(BASE);
	let price_ok = match (max, tip) { (Some(m), None) => m >= base || (!x.tx && m.is_zero()), (Some(m), Some(t)) => t <= m && { let p = m.min(base.saturating_add(t)); p >= base || (!x.tx && p.is_zero()) }, _ => !x.tx };
	let max_fee = max.unwrap_or_default().saturating_mul(W::from(x.gas));
	let funds_ok = (!x.tx && max_fee.is_zero()) || W::from(shown) >= value.saturating_add(max_fee);
	let gas_ok = !x.tx || (x.gas <= o.block && x.gas >= need);
	let good = given.map_or(true, |n| n == W::from(nonce)) && gas_ok && price_ok && funds_ok;
	type R = <Runtime as pallet_evm::Config>::Runner;
	let cfg = pallet_evm::EvmConfig::shanghai();
	let weight = x.weight.map(|t| frame_support::weights::Weight::from_parts(t, t / 2));
	let before = state();
	let v = R::validate(a, target, x.data.clone(), value, x.gas, max, tip, given, list.clone(), x.tx, weight, x.proof, &cfg);
	eq!(format!("validation of nonce {given:?}/{nonce} gas {} of {} need {need} price {max:?}/{tip:?} value {value} balance {shown}", x.gas, o.block), v.is_ok(), good);
	eq!("validation changes the state", state() == before, true);
	eq!("whose balance", world(|v| std::mem::take(&mut v.asked)), vec![(WETH, id(w))]);
	eq!("validation runs the call", world(|v| v.runs.len()), 0);
	let got: Result<(), Error<Runtime>> = match x.kind {
		0 => R::call(a, adr(x.to), x.data.clone(), value, x.gas, max, tip, given, list.clone(), x.tx, x.validate, weight, x.proof, &cfg).map(|i| i.value == x.data).map_err(|e| e.error.into()).and_then(|same| if same { Ok(()) } else { Err(Error::Undefined) }),
		1 => R::create(a, x.data.clone(), value, x.gas, max, tip, given, list.clone(), x.tx, x.validate, weight, x.proof, &cfg).map(|_| ()).map_err(|e| e.error.into()),
		_ => R::create2(a, x.data.clone(), salt, value, x.gas, max, tip, given, list.clone(), x.tx, x.validate, weight, x.proof, &cfg).map(|_| ()).map_err(|e| e.error.into()),
	};
	let runs = world(|v| v.runs.clone());
	if x.validate && !good {
		m.label("refused");
		eq!("a bad transaction passes", got.is_err(), true);
		eq!("a bad transaction runs", runs.len(), 0);
		eq!("a refused transaction leaves no trace", state() == before, true);
		return Ok(())
	}
	eq!("what reaches the interpreter", runs, vec![Ran { kind: x.kind, source: a, target, input: x.data.clone(), salt: (x.kind == 2).then_some(salt), value, gas: x.gas, max_fee: max, tip, nonce: given, list, tx: x.tx, validate: false, weight, proof: x.proof, currency: o.over.get(&w).copied() }]);
	if !x.validate { eq!("balance asked without validation", world(|v| v.asked.len()), 0); }
	// the interpreter's fee
	let per_gas = match (max, tip) { (Some(m), _) if m.is_zero() => W::zero(), (Some(_), None) => base, (Some(m), Some(t)) => base.saturating_add(m.saturating_sub(base).min(t)), _ => W::zero() };
	let plan = if x.end == End::Refused { Err("refused") } else { o.take(a, per_gas.saturating_mul(x.gas.into())) };
	match plan {
		Err(_) => { m.label("not paid"); eq!("outcome of what the interpreter refuses", got.is_err(), true); eq!("state changed", state() == before, true); }
		Ok(p) => {
			if let Err(e) = &got { return Err(format!("call: {e:?}")) }
			m.label("ran");
			if let Some((c, t)) = p {
				eq!("currency", c, cur);
				let price = o.price(c).unwrap();
				o.l.burn(&w, c, t).ok_or("fee")?;
				let rest = o.l.get(&w, c);
				let corrected = per_gas.saturating_mul(x.used.min(x.gas).into());
				// what is left below the existential deposit may have been swept before the refund
				if rest > 0 && rest < o.ed(c) {
					let mut swept = o.clone();
					swept.l.burn(&w, c, rest).ok_or("dust")?;
					swept.settle(&w, c, t, corrected, price)?;
					let mut kept = o.clone();
					kept.settle(&w, c, t, corrected, price)?;
					*o = if swept.l.get(&w, c) == Model::real(&w, c) { swept } else { kept };
				} else { o.settle(&w, c, t, corrected, price)?; }
				m.nontrivial();
			}
			eq!("nonce", frame_system::Account::<Runtime>::get(id(w)).nonce >= 1, true);
		}
	}
	Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Authors { list: Vec<[u8; 32]>, pick: Option<u8> }
thread_local! { static PICK: std::cell::RefCell<Option<u32>> = const { std::cell::RefCell::new(None) }; }
struct Finder;
impl hydradx_evm::evm::FindAuthor<u32> for Finder { fn find_author<'a, I>(_: I) -> Option<u32> where I: 'a + IntoIterator<Item = (hydradx_evm::evm::ConsensusEngineId, &'a [u8])> { PICK.with(|p| *p.borrow()) } }
fn author(c: &Authors, m: &mut Meter) -> Res {
	use hydradx_evm::evm::{FindAuthor, FindAuthorTruncated};
	world(|w| { *w = World::default(); w.authors = c.list.clone(); });
	let pick = c.pick.filter(|_| !c.list.is_empty()).map(|p| p as usize % c.list.len());
	PICK.with(|p| *p.borrow_mut() = pick.map(|p| p as u32));
	let got = <FindAuthorTruncated<Finder> as FindAuthor<H160>>::find_author(std::iter::empty());
	eq!("author", got, pick.map(|p| H160::from_slice(&c.list[p][4..24])));
	if got.is_some() { m.nontrivial() }
	Ok(())
}
pub fn run(c: &mut Ctx) {
	c.assume("the interpreter, the transaction checks of fp-evm and the source of prices are stand-ins; the price of one unit of gas is the default base fee");
	c.check("fees", "histories of fees taken, corrected and tipped and of calls validated and run, in every currency, with locks, dust and price changes; non-trivial: a call ran and paid, or part of a fee came back", 20000, 300000, case, run_case);
	c.check("block author", "the author's address is part of his key; non-trivial: there is an author", 200, 2000, || (proptest::collection::vec(any::<[u8; 32]>(), 0..5), proptest::option::weighted(0.9, any::<u8>())).prop_map(|(list, pick)| Authors { list, pick }), author);
}
