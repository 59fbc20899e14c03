//! Signed permits: one permit, one call, exactly the one that was signed, by whichever way it arrives.
use crate::erc20::bytes;
use crate::*;
use codec::Encode;
use fp_evm::{ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, PrecompileSet, Transfer};
use frame_support::unsigned::{InvalidTransaction, TransactionSource, TransactionValidityError, ValidateUnsigned};
use hydradx_evm::evm::precompiles::CALLPERMIT;
use pallet_evm_precompile_call_permit::NoncesStorage;
use pallet_transaction_multi_payment as mp;
use sp_io::{crypto::*, hashing::keccak_256};
use sp_runtime::DispatchError;
use frame_support::traits::Contains;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const PRICE: u128 = 15_000_000;
const CURRENCIES: [u32; 5] = [0, 1, 2, WETH, 9];
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Data { Raw(Vec<u8>), Set(u8), Batch(u8, Vec<Option<u8>>), Trail(u8), Long(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Permit { key: u8, to: u8, value: u8, data: Data, gas: u64, nonce: i8, deadline: i64, chain: bool, contract: bool }
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Tamper { None, Y27, From(u8), To(u8), Value(u8), Data, Gas(i8), Deadline(i64), R(u8), S(u8), V(u8), Zero }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Which { New(Permit), Old(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Use { which: Which, tamper: Tamper, end: End }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Contract { u: Use, inner: Option<Use>, by: u8, gas: u64, fixed: bool, paid: bool, delegate: bool },
	Extrinsic { u: Use, inner: Option<Use>, used: u64, none: bool, balance: Option<u64> },
	Validate { u: Use, balance: Option<u64> },
	Twice(Use),
	Sign(Permit),
	Currency(u8, u8), Mint(u8, u8, u128), Bind(u8), Time(u64), Chain(u64), Block(u64), Views(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { start: u64, prices: Vec<(u64, u64)>, ops: Vec<Op> }

fn permit() -> BoxedStrategy<Permit> {
	let data = prop_oneof![4 => proptest::collection::vec(any::<u8>(), 0..70).prop_map(Data::Raw), 2 => (0u8..5).prop_map(Data::Set), 2 => (0u8..3, proptest::collection::vec(proptest::option::weighted(0.8, 0u8..5), 0..3)).prop_map(|(k, v)| Data::Batch(k, v)), 1 => (0u8..5).prop_map(Data::Trail)];
	let data = prop_oneof![60 => data, 1 => (65_500u32..65_540).prop_map(Data::Long)];
	let gas = prop_oneof![8 => 30_000u64..3_000_000, 2 => 20_900u64..23_000, 1 => 14_000_000u64..16_000_000, 1 => 0u64..20_000, 1 => any::<u64>()];
	(0u8..3, 0u8..6, prop_oneof![3 => Just(0u8), 1 => 0u8..5], data, gas, prop_oneof![10 => Just(0i8), 2 => Just(1i8), 1 => -2i8..4], prop_oneof![6 => Just(1000i64), 3 => -3i64..4, 1 => Just(i64::MAX)], prop::bool::weighted(0.96), prop::bool::weighted(0.96))
		.prop_map(|(key, to, value, data, gas, nonce, deadline, chain, contract)| Permit { key, to, value, data, gas, nonce, deadline, chain, contract }).boxed()
}
fn tamper() -> BoxedStrategy<Tamper> {
	use Tamper::*;
	let t = prop_oneof![4 => Just(Y27), 1 => (0u8..4).prop_map(From), 1 => (0u8..6).prop_map(To), 1 => (0u8..5).prop_map(Value), 1 => Just(Data), 1 => (-2i8..3).prop_map(Gas), 1 => (-5i64..6).prop_map(Deadline), 1 => any::<u8>().prop_map(R), 1 => any::<u8>().prop_map(S), 2 => any::<u8>().prop_map(V), 1 => Just(Zero)];
	prop_oneof![5 => Just(None), 2 => t].boxed()
}
fn usage() -> BoxedStrategy<Use> {
	let end = prop_oneof![8 => Just(End::Ok), 1 => Just(End::Revert), 1 => Just(End::Error), 1 => Just(End::Fatal), 1 => Just(End::Refused)];
	(prop_oneof![3 => permit().prop_map(Which::New), 2 => any::<u8>().prop_map(Which::Old)], tamper(), end).prop_map(|(which, tamper, end)| Use { which, tamper, end }).boxed()
}
fn op() -> BoxedStrategy<Op> {
	let inner = || proptest::option::weighted(0.4, usage());
	let bal = || proptest::option::weighted(0.15, prop_oneof![0u64..60_000_000, Just(u64::MAX)]);
	prop_oneof![
		6 => (usage(), inner(), 0u8..6, prop_oneof![12 => Just(u64::MAX), 2 => 9_000u64..60_000, 1 => 0u64..12_000], prop::bool::weighted(0.04), prop::bool::weighted(0.04), prop::bool::weighted(0.04)).prop_map(|(u, inner, by, gas, fixed, paid, delegate)| Op::Contract { u, inner, by, gas, fixed, paid, delegate }),
		7 => (usage(), inner(), prop_oneof![20_000u64..40_000, any::<u64>()], prop::bool::weighted(0.96), bal()).prop_map(|(u, inner, used, none, balance)| Op::Extrinsic { u, inner, used, none, balance }),
		4 => (usage(), bal()).prop_map(|(u, balance)| Op::Validate { u, balance }),
		1 => usage().prop_map(Op::Twice),
		3 => permit().prop_map(Op::Sign),
		2 => (0u8..3, 0u8..5).prop_map(|(k, c)| Op::Currency(k, c)),
		4 => (0u8..3, 0u8..4, mag(1, 1 << 70)).prop_map(|(k, a, x)| Op::Mint(k, a, x)),
		1 => (0u8..3).prop_map(Op::Bind), 2 => (0u64..3_000).prop_map(Op::Time), 1 => (0u64..4_000_000).prop_map(Op::Time), 1 => any::<u64>().prop_map(Op::Chain), 1 => (0u64..16_000_000).prop_map(Op::Block), 1 => (0u8..6, 0u8..3).prop_map(|(a, b)| Op::Views(a, b)),
	].boxed()
}
fn case() -> BoxedStrategy<Case> { (any::<u32>(), proptest::collection::vec((1u64..1_000_000_000, 1u64..1_000_000_000), 3), proptest::collection::vec(op(), 1..22)).prop_map(|(s, prices, ops)| Case { start: s as u64 * 500, prices, ops }).boxed() }

/// What anybody can put into a call.
#[derive(Clone, Debug, PartialEq)]
struct Shape { from: H160, to: H160, value: W, data: Vec<u8>, gas: u64, deadline: W, v: u8, r: H256, s: H256 }
#[derive(Clone, Debug)]
struct Signed { shape: Shape, digest: [u8; 32] }
use sp_core::H256;
fn pad(a: H160) -> Vec<u8> { [&[0u8; 12][..], &a.0].concat() }
fn domain(chain: u64, contract: H160) -> [u8; 32] {
	keccak_256(&[keccak_256(b"EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)").to_vec(), keccak_256(b"Call Permit Precompile").to_vec(), keccak_256(b"1").to_vec(), word(chain.into()), pad(contract)].concat())
}
fn digest(s: &Shape, nonce: W, chain: u64, contract: H160) -> [u8; 32] {
	let body = [keccak_256(b"CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)").to_vec(), pad(s.from), pad(s.to), word(s.value), keccak_256(&s.data).to_vec(), word(s.gas.into()), word(nonce), word(s.deadline)].concat();
	keccak_256(&[b"\x19\x01".to_vec(), domain(chain, contract).to_vec(), keccak_256(&body).to_vec()].concat())
}
fn secret(k: u8) -> W { W::from(0x1234_5678_9abc_def0u64) * W::from(k as u64 + 3) + W::one() }
fn owner(k: u8) -> H160 {
	thread_local! { static KEYS: Vec<H160> = (0..3).map(|k| { let (pk, _) = secp256k1_sign(secret(k), W::from(77), &[0u8; 32]); H160::from_slice(&keccak_256(&pk)[12..]) }).collect(); }
	if k < 3 { KEYS.with(|v| v[k as usize]) } else { adr(k) }
}
fn amount(v: u8) -> W { match v { 0 => W::zero(), 1 => W::one(), 2 => W::from(5_000_000_000_000u64), 3 => W::from(u128::MAX), _ => W::MAX } }
fn call_of(d: &Data) -> Vec<u8> {
	let set = |c: u8| RuntimeCall::MultiTransactionPayment(mp::Call::set_currency { currency: CURRENCIES[c as usize] });
	match d {
		Data::Raw(x) => x.clone(),
		Data::Long(n) => vec![7; *n as usize],
		Data::Set(c) => set(*c).encode(),
		Data::Trail(c) => [set(*c).encode(), vec![0]].concat(),
		Data::Batch(kind, v) => {
			let calls: Vec<RuntimeCall> = v.iter().map(|c| match c { Some(c) => set(*c), None => RuntimeCall::System(frame_system::Call::remark { remark: vec![1] }) }).collect();
			match kind { 0 => RuntimeCall::Utility(pallet_utility::Call::batch { calls }), 1 => RuntimeCall::Utility(pallet_utility::Call::batch_all { calls }), _ => RuntimeCall::Utility(pallet_utility::Call::force_batch { calls }) }.encode()
		}
	}
}
/// the currency the data asks for
fn wish(d: &Data) -> Option<u32> { match d { Data::Set(c) => Some(CURRENCIES[*c as usize]), Data::Batch(_, v) => v.first().copied().flatten().map(|c| CURRENCIES[c as usize]), _ => None } }

#[derive(Clone, Default)]
struct Model { nonces: BTreeMap<H160, u64>, chain: u64, now: u64, l: Ledger<[u8; 32]>, bound: BTreeSet<H160>, currency: BTreeMap<H160, u32>, prices: BTreeMap<u32, (u128, u128)>, block: u64, pool: Vec<(Signed, Data)>, err: Option<String>, deep: u32, good: u32, bad: u32, nested: u32 }
impl Model {
	fn nonce(&self, a: H160) -> u64 { self.nonces.get(&a).copied().unwrap_or(0) }
	fn acc(&self, a: H160) -> [u8; 32] { if self.bound.contains(&a) { full(a) } else { plain(a) } }
	fn sign(&mut self, p: &Permit) -> (Signed, Data) {
		let from = owner(p.key);
		let deadline = if p.deadline == i64::MAX { W::MAX } else { W::from((self.now as i128 / 1000 + p.deadline as i128).max(0) as u128) };
		let mut shape = Shape { from, to: adr(p.to), value: amount(p.value), data: call_of(&p.data), gas: p.gas, deadline, v: 0, r: H256::zero(), s: H256::zero() };
		let nonce = (self.nonce(from) as i128 + p.nonce as i128).max(0) as u128;
		let digest = digest(&shape, nonce.into(), if p.chain { self.chain } else { self.chain ^ 1 }, if p.contract { CALLPERMIT } else { adr(3) });
		let (_, sig) = secp256k1_sign(secret(p.key), W::from_big_endian(&digest) >> 200, &digest);
		shape.r = H256::from_slice(&sig[..32]);
		shape.s = H256::from_slice(&sig[32..64]);
		shape.v = sig[64];
		let s = (Signed { shape, digest }, p.data.clone());
		self.pool.push(s.clone());
		s
	}
	/// what is presented and whether it is what the owner signed for his next call here and now
	fn show(&mut self, u: &Use) -> (Shape, Option<Data>, bool, bool) {
		let (signed, data) = match &u.which { Which::New(p) => self.sign(p), Which::Old(i) => match self.pool.len() { 0 => self.sign(&Permit { key: 0, to: 4, value: 0, data: Data::Raw(vec![]), gas: 50_000, nonce: 0, deadline: 5, chain: true, contract: true }), n => self.pool[n - 1 - (*i as usize % 8).min(n - 1)].clone() } };
		let mut s = signed.shape.clone();
		let mut data = Some(data);
		let flip = |h: &mut H256, b: u8| h.0[b as usize % 32] ^= 1 << (b / 32);
		match u.tamper {
			Tamper::None => {}
			Tamper::Y27 => s.v += 27,
			Tamper::From(k) => s.from = owner(k),
			Tamper::To(k) => s.to = adr(k),
			Tamper::Value(v) => s.value = amount(v),
			Tamper::Data => { s.data.push(0); data = None; }
			Tamper::Gas(d) => s.gas = s.gas.saturating_add_signed(d as i64),
			Tamper::Deadline(d) => s.deadline = if d < 0 { s.deadline.saturating_sub(W::from(-d)) } else { s.deadline.saturating_add(W::from(d)) },
			Tamper::R(b) => flip(&mut s.r, b),
			Tamper::S(b) => flip(&mut s.s, b),
			Tamper::V(v) => s.v = v,
			Tamper::Zero => { s.r = H256::zero(); s.s = H256::zero(); }
		}
		let same_sig = s.r == signed.shape.r && s.s == signed.shape.s && (s.v == signed.shape.v || s.v == signed.shape.v + 27);
		let in_time = s.deadline >= W::from(self.now / 1000);
		let good = same_sig && s.from == signed.shape.from && digest(&s, self.nonce(s.from).into(), self.chain, CALLPERMIT) == signed.digest;
		if good && in_time { self.good += 1 } else { self.bad += 1 }
		(s, data, in_time, good)
	}
}
fn encode(s: &Shape) -> Vec<u8> {
	let sel = &keccak_256(b"dispatch(address,address,uint256,bytes,uint64,uint256,uint8,bytes32,bytes32)")[..4];
	let mut d = s.data.clone();
	d.resize((d.len() + 31) / 32 * 32, 0);
	[sel.to_vec(), pad(s.from), pad(s.to), word(s.value), word((32 * 9).into()), word(s.gas.into()), word(s.deadline), word(s.v.into()), s.r.0.to_vec(), s.s.0.to_vec(), word(s.data.len().into()), d].concat()
}
type M = Rc<RefCell<Model>>;
struct Ask { by: H160, gas: u64, fixed: bool, paid: bool, delegate: bool }
/// A permit used by a contract or a transaction of anybody's.
fn contract(model: &M, u: &Use, inner: Option<Use>, k: Ask) -> Result<bool, String> {
	let (s, _, in_time, good) = model.borrow_mut().show(u);
	let extra = if s.value.is_zero() { 2_600u128 } else { 36_600 };
	let enough = k.gas as u128 >= 9_000 && k.gas as u128 - 9_000 >= s.gas as u128 + extra;
	let runs = !k.delegate && !k.paid && !k.fixed && s.data.len() <= 65_536 && enough && in_time && good;
	let before = model.borrow().nonces.clone();
	if runs { let mut b = model.borrow_mut(); let n = b.nonce(s.from); b.nonces.insert(s.from, n + 1); b.deep += 1; }
	let mut h = Handle::new(CALLPERMIT, k.by, encode(&s));
	(h.gas, h.fixed) = (k.gas, k.fixed);
	if k.paid { h.ctx.apparent_value = W::one() }
	if k.delegate { h.ctx.address = adr(5) }
	let (from, end, m2) = (s.from, u.end, model.clone());
	let out = s.data.iter().rev().copied().collect::<Vec<u8>>();
	let out2 = out.clone();
	h.answer = Box::new(move |_| {
		let n = NoncesStorage::get(from);
		let want = W::from(m2.borrow().nonce(from));
		if n != want { m2.borrow_mut().err.get_or_insert(format!("while the call runs the owner's nonce is {n}, expected {want}")); }
		if let Some(u) = &inner {
			m2.borrow_mut().nested += 1;
			let snapshot = m2.borrow().nonces.clone();
			if let Err(e) = contract(&m2, u, None, Ask { by: adr(4), gas: u64::MAX, fixed: false, paid: false, delegate: false }) { m2.borrow_mut().err.get_or_insert(format!("inside: {e}")); }
			let _ = snapshot;
		}
		(match end { End::Ok => ExitReason::Succeed(ExitSucceed::Returned), End::Revert => ExitReason::Revert(ExitRevert::Reverted), End::Error | End::Refused => ExitReason::Error(ExitError::OutOfGas), End::Fatal => ExitReason::Fatal(ExitFatal::NotSupported) }, out2.clone())
	});
	let untouched = state();
	let got = frame_support::storage::with_storage_layer(|| -> Result<Result<fp_evm::PrecompileOutput, fp_evm::PrecompileFailure>, DispatchError> {
		// what a failing call did is undone
		match Contracts::new().execute(&mut h) { Some(Ok(o)) => Ok(Ok(o)), Some(Err(e)) => { FAILED.with(|f| *f.borrow_mut() = Some(e)); Err("failed".into()) } None => Err("none".into()) }
	});
	let failed = FAILED.with(|f| f.borrow_mut().take());
	if let Some(e) = model.borrow_mut().err.take() { return Err(e) }
	eq!("the call was passed on", h.calls.len(), runs as usize);
	if runs {
		let c = &h.calls[0];
		eq!("the call that runs", c.clone(), SubCall { to: s.to, transfer: if s.value.is_zero() { None } else { Some(Transfer { source: s.from, target: s.to, value: s.value }) }, input: s.data.clone(), gas: Some(s.gas), fixed: false, ctx: fp_evm::Context { address: s.to, caller: s.from, apparent_value: s.value }, left: k.gas - 9_000 });
		eq!("proof recorded", h.external.clone(), vec![(None, Some(8), None), (None, Some(104), None)]);
	}
	eq!("gas taken", runs && h.spent != 9_000, false);
	eq!("logs", h.logs.len(), 0);
	use fp_evm::PrecompileFailure as F;
	match (runs, u.end, &got, &failed) {
		(true, End::Ok, Ok(Ok(o)), _) => { eq!("the call's result", o.output.clone(), bytes(&out)); return Ok(true) }
		(true, End::Revert, _, Some(F::Revert { output, .. })) => { eq!("the revert's data", output.clone(), out); }
		(true, End::Error | End::Refused, _, Some(F::Error { exit_status })) => { eq!("the error", exit_status.clone(), ExitError::OutOfGas); }
		(true, End::Fatal, _, Some(F::Fatal { exit_status })) => { eq!("the failure", exit_status.clone(), ExitFatal::NotSupported); }
		(false, _, _, Some(F::Revert { .. })) => {}
		(false, _, _, Some(F::Error { exit_status })) if k.gas < 9_000 => { eq!("out of gas", exit_status.clone(), ExitError::OutOfGas); }
		_ => return Err(format!("permit {} ({:?}): {got:?} {failed:?}", if runs { "is good" } else { "is not good" }, u.end)),
	}
	model.borrow_mut().nonces = before;
	eq!("a permit that fails leaves no trace", state() == untouched, true);
	Ok(false)
}
thread_local! { static FAILED: RefCell<Option<fp_evm::PrecompileFailure>> = const { RefCell::new(None) }; }
fn up(x: u128, n: u128, d: u128) -> u128 { (x * n + d - 1) / d }
/// What becomes of a permit sent without a signature of its own: the fee, if the call is made.
fn charge(m: &Model, s: &Shape, data: &Option<Data>, end: End, used: u64, balance: Option<u64>) -> Result<(u32, u128, u128), &'static str> {
	let zeros = s.data.iter().filter(|x| **x == 0).count() as u64;
	let need = 21_000 + 4 * zeros + 16 * (s.data.len() as u64 - zeros);
	if s.gas > m.block || s.gas < need { return Err("gas limit") }
	let funds = balance.map(|b| W::from(b) * W::from(PRICE)).unwrap_or(W::from(u128::MAX)).min(W::from(u128::MAX));
	if funds < s.value.saturating_add(W::from(s.gas) * W::from(PRICE)) { return Err("funds") }
	if end == End::Refused { return Err("refused") }
	let currency = data.as_ref().and_then(wish).unwrap_or(m.currency.get(&s.from).copied().unwrap_or(0));
	let (n, d) = if currency == WETH { (1, 1) } else { *m.prices.get(&currency).ok_or("no price")? };
	let taken = up(s.gas as u128 * PRICE, n, d);
	if taken == 0 { return Err("nothing to pay") }
	if m.l.get(&m.acc(s.from), currency) < taken { return Err("cannot pay") }
	Ok((currency, taken, up(used.min(s.gas) as u128 * PRICE, n, d).min(taken)))
}
fn submit(s: &Shape, none: bool) -> frame_support::dispatch::DispatchResultWithPostInfo {
	let o = if none { frame_system::RawOrigin::None } else { frame_system::RawOrigin::Signed(id([1; 32])) };
	MultiTransactionPayment::dispatch_permit(o.into(), s.from, s.to, s.value, s.data.clone(), s.gas, s.deadline, s.v, s.r, s.s)
}
fn paused() -> bool { pallet_transaction_pause::PausedTransactions::<Runtime>::iter().count() == 1 && pallet_transaction_pause::PausedTransactionFilter::<Runtime>::contains(&RuntimeCall::MultiTransactionPayment(mp::Call::dispatch_permit { from: H160::zero(), to: H160::zero(), value: W::zero(), data: vec![], gas_limit: 0, deadline: W::zero(), v: 0, r: H256::zero(), s: H256::zero() })) }
fn extrinsic(model: &M, u: &Use, inner: Option<Use>, used: u64, none: bool, balance: Option<u64>, m: &mut Meter) -> Res {
	let (s, data, in_time, good) = model.borrow_mut().show(u);
	let who = model.borrow().acc(s.from);
	let plan = if !none || !in_time || !good { Err("no permit") } else { charge(&model.borrow(), &s, &data, u.end, used, balance) };
	world(|w| { w.gas_used = used; w.ends = vec![u.end]; w.runs.clear(); w.balance = balance.map(|b| b as u128 * PRICE); w.asked.clear(); });
	let nonce = frame_system::Account::<Runtime>::get(id(who)).nonce;
	let before_nonces = model.borrow().nonces.clone();
	frame_system::Pallet::<Runtime>::reset_events();
	let start = state();
	if plan.is_ok() {
		let mut b = model.borrow_mut();
		let n = b.nonce(s.from);
		b.nonces.insert(s.from, n + 1);
		drop(b);
		let (m2, from) = (model.clone(), s.from);
		let at_call = model.borrow().nonces.clone();
		let ok = u.end == End::Ok;
		hydradx_evm::inner(Some(Box::new(move |_| {
			let n = NoncesStorage::get(from);
			let want = W::from(m2.borrow().nonce(from));
			if n != want { m2.borrow_mut().err.get_or_insert(format!("while the call runs the owner's nonce is {n}, expected {want}")); }
			if let Some(u) = &inner {
				m2.borrow_mut().nested += 1;
				if let Err(e) = contract(&m2, u, None, Ask { by: adr(4), gas: u64::MAX, fixed: false, paid: false, delegate: false }) { m2.borrow_mut().err.get_or_insert(format!("inside: {e}")); }
				if !ok { m2.borrow_mut().nonces = at_call; }
			}
		})));
	}
	let got = submit(&s, none);
	hydradx_evm::inner(None);
	if let Some(e) = model.borrow_mut().err.take() { return Err(e) }
	if !none {
		eq!("a signed transaction with a permit", got, Err(DispatchError::BadOrigin.into()));
		eq!("state changed", state() == start, true);
		return Ok(())
	}
	let info = got.map_err(|e| format!("dispatching a permit failed: {e:?}"))?;
	eq!("the transaction is paused", paused(), plan.is_err());
	eq!("override left behind", mp::TransactionCurrencyOverride::<Runtime>::iter().count(), 0);
	let runs = world(|w| w.runs.clone());
	let account = frame_system::Account::<Runtime>::get(id(who)).nonce;
	eq!("the account's nonce", account, nonce);
	match plan {
		Err(why) => {
			m.label(why);
			model.borrow_mut().nonces = before_nonces;
			eq!("runs of what must not run", runs.len(), ["refused", "no price", "nothing to pay", "cannot pay"].contains(&why) as usize);
			let now = { frame_system::Pallet::<Runtime>::reset_events(); let k = (*b"MultiTransactionPayment").to_vec(); Pause::unpause_transaction(frame_system::RawOrigin::Root.into(), k, b"dispatch_permit".to_vec()).map_err(|e| format!("{e:?}"))?; frame_system::Pallet::<Runtime>::reset_events(); state() };
			if why == "no permit" { eq!("post info", info, Default::default()); eq!("a bad permit leaves no trace", now == start, true); }
		}
		Ok((currency, taken, fee)) => {
			m.label("executed");
			eq!("what ran", runs, vec![Ran { kind: 0, source: s.from, target: Some(s.to), input: s.data.clone(), salt: None, value: s.value, gas: s.gas, max_fee: Some(PRICE.into()), tip: None, nonce: None, list: vec![], tx: true, validate: false, weight: None, proof: None, currency: Some(currency) }]);
			eq!("asked the balance of", world(|w| w.asked.clone()), vec![(WETH, id(who))]);
			let g = used.min(s.gas);
			eq!("weight", info.actual_weight, Some(frame_support::weights::Weight::from_parts(g * 25_000, g / 3)));
			eq!("pays", info.pays_fee, frame_support::dispatch::Pays::No);
			if currency != model.borrow().currency.get(&s.from).copied().unwrap_or(0) { m.label("currency of the call") }
			let _ = taken;
			model.borrow_mut().l.mv(currency, &who, &[7; 32], fee).ok_or("fee")?;
		}
	}
	Ok(())
}
fn check_valid(model: &M, u: &Use, balance: Option<u64>, m: &mut Meter) -> Res {
	let (s, data, in_time, good) = model.borrow_mut().show(u);
	world(|w| { w.gas_used = 21_000; w.ends = vec![u.end]; w.runs.clear(); w.balance = balance.map(|b| b as u128 * PRICE); w.asked.clear(); });
	type E = mp::Error<Runtime>;
	let want: Result<(), E> = if !in_time { Err(E::EvmPermitExpired) } else if !good { Err(E::EvmPermitInvalid) } else { match charge(&model.borrow(), &s, &data, u.end, 21_000, balance) { Err(_) => Err(E::EvmPermitRunnerError), Ok(_) if u.end != End::Ok => Err(E::EvmPermitCallExecutionError), Ok(_) => Ok(()) } };
	let before = state();
	let call = mp::Call::<Runtime>::dispatch_permit { from: s.from, to: s.to, value: s.value, data: s.data.clone(), gas_limit: s.gas, deadline: s.deadline, v: s.v, r: s.r, s: s.s };
	let got = <MultiTransactionPayment as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &call);
	eq!("validation changes the state", state() == before, true);
	match want {
		Ok(()) => {
			let v = got.map_err(|e| format!("good permit is refused: {e:?}"))?;
			m.label("valid");
			eq!("provides", v.provides, vec![("EVMPermit", (W::from(model.borrow().nonce(s.from)), s.from)).encode()]);
			eq!("requires, priority, longevity, propagate", (v.requires.len(), v.priority, v.longevity, v.propagate), (0, 0, 64, true));
		}
		Err(e) => {
			m.label("not valid");
			let DispatchError::Module(x) = DispatchError::from(e) else { return Err("no module error".into()) };
			eq!("validity", got, Err(TransactionValidityError::Invalid(InvalidTransaction::Custom(x.error[0]))));
		}
	}
	world(|w| w.ends.clear());
	Ok(())
}
fn run_case(c: &Case, m: &mut Meter) -> Res {
	let prices: BTreeMap<u32, (u128, u128)> = [0u32, 1, 2].iter().zip(&c.prices).map(|(a, (n, d))| (*a, (*n as u128, *d as u128))).collect();
	world(|w| { *w = World::default(); w.now = c.start; w.prices = prices.clone(); w.eds.clear(); });
	let model: M = Rc::new(RefCell::new(Model { chain: 222222, now: c.start, prices, block: 15_000_000, ..Default::default() }));
	fresh(genesis(), || {
		for a in [1, 2, WETH] { MultiTransactionPayment::add_currency(frame_system::RawOrigin::Root.into(), a, 1.into()).map_err(|e| format!("{e:?}"))?; }
		for a in [0u32, 1, 2, WETH] { mint(&[7; 32], a, 1 << 60); model.borrow_mut().l.mint(&[7; 32], a, 1 << 60); }
		for k in 0..3u8 { for a in [0u32, 1, 2, WETH] { let (w, x) = (plain(owner(k)), 1u128 << 66); mint(&w, a, x); model.borrow_mut().l.mint(&w, a, x); } }
		let people: Vec<[u8; 32]> = (0..3).flat_map(|k| [plain(owner(k)), full(owner(k))]).chain([[7; 32]]).collect();
		for (i, o) in c.ops.iter().enumerate() {
			let at = |e: String| format!("op {i}: {e}");
			match o {
				Op::Contract { u, inner, by, gas, fixed, paid, delegate } => { if contract(&model, u, inner.clone(), Ask { by: adr(*by), gas: *gas, fixed: *fixed, paid: *paid, delegate: *delegate }).map_err(at)? { m.label("by contract") } }
				Op::Extrinsic { u, inner, used, none, balance } => extrinsic(&model, u, inner.clone(), *used, *none, *balance, m).map_err(at)?,
				Op::Validate { u, balance } => check_valid(&model, u, *balance, m).map_err(at)?,
				Op::Twice(u) => {
					let free = || Ask { by: adr(4), gas: u64::MAX, fixed: false, paid: false, delegate: false };
					if contract(&model, u, None, free()).map_err(at)? {
						let again = Use { which: Which::Old(0), ..u.clone() };
						let again = if matches!(u.which, Which::New(_)) { again } else { u.clone() };
						if contract(&model, &again, None, free()).map_err(at)? { return Err(at("a permit was used twice".into())) }
						extrinsic(&model, &again, None, 21_000, true, None, m).map_err(at)?;
						m.label("used again");
					}
				}
				Op::Sign(p) => { model.borrow_mut().sign(p); }
				Op::Currency(k, a) => {
					let (from, a) = (owner(*k), CURRENCIES[*a as usize]);
					let who = model.borrow().acc(from);
					let r = MultiTransactionPayment::set_currency(frame_system::RawOrigin::Signed(id(who)).into(), a);
					eq!(at("set currency".into()), r.is_ok(), a != 9);
					if a != 9 { model.borrow_mut().currency.insert(from, a); }
				}
				Op::Mint(k, a, x) => { let (w, a) = (model.borrow().acc(owner(*k)), CURRENCIES[*a as usize]); if mint(&w, a, *x) { model.borrow_mut().l.mint(&w, a, *x); } }
				Op::Bind(k) => {
					let a = owner(*k);
					let ok = bind(a);
					eq!(at("binding".into()), ok, !model.borrow().bound.contains(&a));
					// the currency is the account's, which is another now
					if ok { let mut b = model.borrow_mut(); b.bound.insert(a); b.currency.remove(&a); }
				}
				Op::Time(d) => { let mut b = model.borrow_mut(); b.now += d; world(|w| w.now = b.now); }
				Op::Chain(x) => { let mut b = model.borrow_mut(); b.chain = *x; world(|w| w.chain = *x); }
				Op::Block(x) => { let mut b = model.borrow_mut(); b.block = *x; world(|w| w.block_gas = (*x).into()); }
				Op::Views(by, k) => {
					let b = model.borrow();
					let sel = |s: &str| keccak_256(s.as_bytes())[..4].to_vec();
					for (data, want) in [([sel("nonces(address)"), pad(owner(*k))].concat(), word(b.nonce(owner(*k)).into())), (sel("DOMAIN_SEPARATOR()"), domain(b.chain, CALLPERMIT).to_vec())] {
						let mut h = Handle::new(CALLPERMIT, adr(*by), data);
						h.fixed = *by > 2;
						let before = state();
						let o = Contracts::new().execute(&mut h).ok_or("no contract")?.map_err(|e| at(format!("view: {e:?}")))?;
						eq!(at("view".into()), o.output, want);
						eq!(at("view costs".into()), h.spent, 1000);
						eq!(at("view changes state".into()), state() == before, true);
					}
				}
			}
			let b = model.borrow();
			for k in 0..4 { eq!(at(format!("permit nonce of {k}")), NoncesStorage::get(owner(k)), W::from(b.nonce(owner(k)))); }
			same_ledger(&b.l, &people, &[0, 1, 2, WETH], |a, w| <Currencies as MultiCurrency<AccountId32>>::free_balance(a, &id(*w)), |a| <Currencies as MultiCurrency<AccountId32>>::total_issuance(a)).map_err(at)?;
		}
		let b = model.borrow();
		if b.nested > 0 { m.label("nested") }
		if b.good > 0 && b.bad > 0 { m.nontrivial() }
		Ok(())
	})
}
pub fn run(c: &mut Ctx) {
	c.assume("signatures are made and recovered by the stand-in for secp256k1 (by the book, not the host's library); the interpreter around the permit is a stand-in that takes the fee, runs nested permits and ends as generated");
	c.check("permits", "histories of permits signed, tampered with, replayed, nested, sent through the contract, as transactions and to the pool; non-trivial: some permit was good and some was not", 4000, 60000, case, run_case);
}
