use frame_system::RawOrigin;
use hydradx_traits::evm::InspectEvmAccounts;
use kit::*;
use pallet_evm_accounts::{Event as E, EvmNonceProvider};
use sp_core::{crypto::AccountId32, H160, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

construct_runtime!(pub enum Test { System: frame_system, Evm: pallet_evm_accounts });
system_config!(Test, AccountId32, ());
thread_local! { static NONCE: RefCell<BTreeMap<H160, U256>> = RefCell::new(BTreeMap::new()); }
pub struct Nonces;
impl EvmNonceProvider for Nonces { fn get_nonce(a: H160) -> U256 { NONCE.with(|n| n.borrow().get(&a).copied().unwrap_or_default()) } }
pub struct Ctl;
impl frame_support::traits::SortedMembers<AccountId32> for Ctl { fn sorted_members() -> Vec<AccountId32> { vec![acc(0)] } }
impl pallet_evm_accounts::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type FeeMultiplier = ConstU32<10>;
	type EvmNonceProvider = Nonces;
	type ControllerOrigin = frame_system::EnsureSignedBy<Ctl, AccountId32>;
	type WeightInfo = ();
}
/// Accounts: 0..16 share their first 20 bytes in groups of four and differ in the last 12; 16.. are truncated forms.
fn acc(i: u8) -> AccountId32 {
	let mut d = [0u8; 32];
	if i < 16 {
		d[..20].copy_from_slice(&adr(i / 4).0);
		match i % 4 { 0 => {} 1 => d[31] = 1, 2 => d[20] = 0xff, _ => for (k, x) in d[20..].iter_mut().enumerate() { *x = (k as u8 + 1).wrapping_mul(17) } }
	} else {
		d[..4].copy_from_slice(b"ETH\0");
		d[4..24].copy_from_slice(&adr(i - 16).0);
	}
	AccountId32::new(d)
}
fn adr(i: u8) -> H160 {
	let mut d = [0u8; 20];
	match i { 0 => {} 1 => d = [0xff; 20], 2 => for (k, x) in d.iter_mut().enumerate() { *x = k as u8 + 1 }, 3 => { d[..4].copy_from_slice(b"ETH\0"); d[19] = 9 } 4 => d[19] = 1, 5 => d[0] = 1, _ => d = [i; 20] }
	H160(d)
}
const ACCS: u8 = 22;
const ADRS: u8 = 8;
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Bind(u8), BindRaw(Vec<u8>), Add { by: u8, a: u8, raw: bool }, Remove { by: u8, a: u8, raw: bool }, Renounce(u8), Nonce { of: u8, n: u8 }, Root(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ops: Vec<Op> }
fn op() -> BoxedStrategy<Op> {
	let who = || 0..ACCS;
	let by = || prop_oneof![5 => Just(0u8), 1 => 0..ACCS];
	prop_oneof![
		6 => who().prop_map(Op::Bind),
		2 => proptest::collection::vec(any::<u8>(), 32).prop_map(Op::BindRaw),
		3 => (by(), 0..ADRS, any::<bool>()).prop_map(|(by, a, raw)| Op::Add { by, a, raw }),
		2 => (by(), 0..ADRS, any::<bool>()).prop_map(|(by, a, raw)| Op::Remove { by, a, raw }),
		2 => who().prop_map(Op::Renounce),
		3 => (who(), 0u8..6).prop_map(|(of, n)| Op::Nonce { of, n }),
		1 => (0u8..4).prop_map(Op::Root),
	].boxed()
}
fn head(a: &AccountId32) -> H160 { let b: &[u8; 32] = a.as_ref(); H160::from_slice(&b[..20]) }
fn truncated(a: &H160) -> AccountId32 { let mut v = b"ETH\0".to_vec(); v.extend_from_slice(&a.0); v.extend_from_slice(&[0; 8]); AccountId32::new(v.try_into().unwrap()) }
fn looks_truncated(a: &AccountId32) -> bool { let b: &[u8; 32] = a.as_ref(); b[0] == b'E' && b[1] == b'T' && b[2] == b'H' && b[3] == 0 && b[24..].iter().all(|x| *x == 0) }
fn run(c: &Case, m: &mut Meter) -> Res {
	NONCE.with(|n| n.borrow_mut().clear());
	let mut bound: BTreeMap<H160, AccountId32> = BTreeMap::new();
	let mut deploy: BTreeSet<H160> = BTreeSet::new();
	let mut seen: BTreeSet<AccountId32> = (0..ACCS).map(acc).collect();
	let mut addrs: BTreeSet<H160> = (0..ADRS).map(adr).collect();
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let sg = |w: &AccountId32| RuntimeOrigin::from(RawOrigin::Signed(w.clone()));
			let mut ev: Vec<E<Test>> = vec![];
			match o {
				Op::Nonce { of, n } => { let v = match n { 0 | 1 => U256::zero(), 2 => U256::one(), 3 => U256::MAX, 4 => U256::from(u64::MAX) + U256::one(), _ => U256::one() << 128 }; NONCE.with(|x| x.borrow_mut().insert(head(&acc(*of)), v)); }
				Op::Bind(_) | Op::BindRaw(_) => {
					let who = match o { Op::Bind(w) => acc(*w), Op::BindRaw(v) => AccountId32::new(<[u8; 32]>::try_from(v.clone()).map_err(|_| "bad replay")?), _ => unreachable!() };
					let a = head(&who);
					let ok = !bound.contains_key(&a) && Nonces::get_nonce(a).is_zero();
					let got = atomic(what, || Evm::bind_evm_address(sg(&who)))?;
					agree(what, &got, &ok.then_some(()))?;
					if ok { ev.push(E::Bound { account: who.clone(), address: a }); bound.insert(a, who.clone()); m.label("bound"); }
					else { m.label(if bound.contains_key(&a) { "refused: bound" } else { "refused: nonce" }); m.nontrivial(); }
					seen.insert(who); addrs.insert(a);
				}
				Op::Add { by, a, raw } | Op::Remove { by, a, raw } => {
					let add = matches!(o, Op::Add { .. });
					let x = if *raw { head(&acc(a * 2)) } else { adr(*a) };
					addrs.insert(x);
					let ok = acc(*by) == acc(0);
					let got = atomic(what, || if add { Evm::add_contract_deployer(sg(&acc(*by)), x) } else { Evm::remove_contract_deployer(sg(&acc(*by)), x) })?;
					agree(what, &got, &ok.then_some(()))?;
					if ok { if add { deploy.insert(x); ev.push(E::DeployerAdded { who: x }) } else { m.label(if deploy.remove(&x) { "removed" } else { "removed nothing" }); ev.push(E::DeployerRemoved { who: x }) } }
				}
				Op::Renounce(w) => {
					let got = atomic(what, || Evm::renounce_contract_deployer(sg(&acc(*w))))?;
					agree(what, &got, &Some(()))?;
					let x = head(&acc(*w));
					if deploy.remove(&x) { m.label("renounced"); m.nontrivial(); }
					ev.push(E::DeployerRemoved { who: x });
				}
				Op::Root(k) => {
					let r = RuntimeOrigin::from(if k % 2 == 0 { RawOrigin::Root } else { RawOrigin::None });
					let got = atomic(what, || match k { 0 | 1 => Evm::bind_evm_address(r), 2 => Evm::renounce_contract_deployer(r), _ => Evm::add_contract_deployer(r, adr(0)) })?;
					agree(what, &got, &None::<()>)?;
				}
			}
			let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Evm(e) => Some(e), _ => None }).collect();
			ensure_eq!(e, ev, "{}: events", what());
			for a in &addrs {
				ensure_eq!(Evm::bound_account_id(*a), bound.get(a).cloned(), "{}: account bound to {a:?}", what());
				ensure_eq!(Evm::truncated_account_id(*a), truncated(a), "{}: truncated form of {a:?}", what());
				let want = bound.get(a).cloned().unwrap_or_else(|| truncated(a));
				ensure_eq!(Evm::account_id(*a), want, "{}: account of {a:?}", what());
				must!(Evm::is_evm_account(truncated(a)), "{}: {a:?} truncated is not an EVM account", what());
				ensure_eq!(Evm::can_deploy_contracts(*a), deploy.contains(a), "{}: {a:?} may deploy", what());
			}
			for w in &seen {
				ensure_eq!(<Evm as InspectEvmAccounts<AccountId32, H160>>::evm_address(w), head(w), "{}: EVM address of {w:?}", what());
				ensure_eq!(Evm::is_evm_account(w.clone()), looks_truncated(w), "{}: {w:?} an EVM account", what());
			}
		}
		Ok(())
	})
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One { b: Vec<u8>, eth: u8, zero: u8 }
fn shape(c: &One, m: &mut Meter) -> Res {
	let mut d: [u8; 32] = c.b.clone().try_into().map_err(|_| "bad replay")?;
	if c.eth > 0 { d[..4].copy_from_slice(b"ETH\0"); if c.eth > 1 && c.eth < 6 { d[c.eth as usize - 2] ^= 1 << (c.b[9] % 8) } }
	if c.zero > 0 { d[24..].fill(0); if c.zero > 1 && c.zero < 10 { d[22 + c.zero as usize] = c.b[8].max(1) } }
	let w = AccountId32::new(d);
	if looks_truncated(&w) { m.label("truncated"); m.nontrivial(); } else if c.eth > 0 && c.zero > 0 { m.label("near miss"); m.nontrivial(); }
	ensure_eq!(Evm::is_evm_account(w.clone()), looks_truncated(&w), "{w:?} an EVM account");
	ensure_eq!(<Evm as InspectEvmAccounts<AccountId32, H160>>::evm_address(&w), head(&w), "EVM address");
	let a = H160::from_slice(&d[4..24]);
	ensure_eq!(Evm::truncated_account_id(a), truncated(&a), "truncated form");
	if looks_truncated(&w) { ensure_eq!(Evm::truncated_account_id(a), w, "a truncated account is the truncated form of the address inside it"); }
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("EVM nonces come from a stand-in that the history changes; in the runtime they come from pallet-evm");
	c.check("binding", "histories of binding, deployer lists and changing nonces over accounts that share addresses; non-trivial: a binding was refused or a deployer renounced", 30_000, 600_000, || proptest::collection::vec(op(), 1..30).prop_map(|ops| Case { ops }), run);
	c.check("forms", "account bytes at and one byte off the truncated form; non-trivial: exactly or nearly truncated", 50_000, 2_000_000, || (proptest::collection::vec(any::<u8>(), 32), 0u8..8, 0u8..12).prop_map(|(b, eth, zero)| One { b, eth, zero }), shape);
	std::process::exit(c.finish());
}
