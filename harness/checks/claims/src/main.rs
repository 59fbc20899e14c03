use frame_support::dispatch::DispatchInfo;
use frame_system::RawOrigin;
use kit::*;
use pallet_claims::{EcdsaSignature, EthereumAddress, Event as E, ValidateClaim};
use sp_io::hashing::keccak_256;
use sp_runtime::traits::SignedExtension;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Claims: pallet_claims, Balances: pallet_balances });
const PREFIXES: [&str; 3] = ["I hereby claim all my xHDX tokens to wallet:", "", "0123456789 x"];
thread_local! { static CFG: RefCell<(u128, usize)> = RefCell::new((1, 0)); }
parameter_types! { pub Ed: u128 = CFG.with(|c| c.borrow().0); pub Prefix: &'static [u8] = PREFIXES[CFG.with(|c| c.borrow().1)].as_bytes(); }
system_config!(Test, u64, pallet_balances::AccountData<u128>);
impl pallet_balances::Config for Test {
	type MaxLocks = ();
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = Ed;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ();
	type ReserveIdentifier = ();
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_claims::Config for Test { type RuntimeEvent = RuntimeEvent; type Currency = Balances; type Prefix = Prefix; type WeightInfo = (); type CurrencyBalance = u128; }

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Bad { No, V27, Mirror, Flip(u8, u8), V(u8), Prefix, Upper, Short }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	/// `by` sends a signature made with `key` for the account `of` (itself when none)
	Claim { by: u64, key: u8, of: Option<u64>, nonce: u8, bad: Bad, unsigned: bool },
	Pay { from: u64, to: u64, x: A },
	Other { by: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ed: u128, prefix: usize, claims: Vec<(u8, u128)>, bal: Vec<u128>, ops: Vec<Op> }
const ACC: [u64; 4] = [1, 0xab12, 42, u64::MAX - 9];
fn acc() -> BoxedStrategy<u64> { prop::sample::select(ACC.to_vec()).boxed() }
fn bad() -> BoxedStrategy<Bad> { prop_oneof![14 => Just(Bad::No), 2 => Just(Bad::V27), 2 => Just(Bad::Mirror), 1 => (0u8..65, 1u8..=255).prop_map(|(i, x)| Bad::Flip(i, x)), 1 => any::<u8>().prop_map(Bad::V), 1 => Just(Bad::Prefix), 1 => Just(Bad::Upper), 1 => Just(Bad::Short)].boxed() }
fn op() -> BoxedStrategy<Op> {
	prop_oneof![
		8 => (acc(), 0u8..5, prop::option::weighted(0.12, acc()), 1u8..4, bad(), prop::bool::weighted(0.03)).prop_map(|(by, key, of, nonce, bad, unsigned)| Op::Claim { by, key, of, nonce, bad, unsigned }),
		2 => (acc(), acc(), amt()).prop_map(|(from, to, x)| Op::Pay { from, to, x }),
		1 => acc().prop_map(|by| Op::Other { by }),
	].boxed()
}
fn case(n: usize) -> BoxedStrategy<Case> {
	let due = || prop_oneof![1 => Just(0u128), 2 => 1u128..20, 5 => mag(1, 1 << 100)];
	(prop_oneof![2 => Just(1u128), 1 => 1u128..30], 0usize..3, proptest::collection::vec((0u8..5, due()), 2..9), proptest::collection::vec(prop_oneof![1 => Just(0u128), 1 => mag(30, 1 << 100)], 4), proptest::collection::vec(op(), 1..n)).prop_map(|(ed, prefix, claims, bal, ops)| Case { ed, prefix, claims, bal, ops }).boxed()
}
fn hex(w: u64) -> String { w.to_le_bytes().iter().map(|b| format!("{b:02x}")).collect() }
fn order() -> U256 { U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).unwrap() }
use sp_core::U256;
/// (address of the key, signature of the text)
fn sign(key: u8, nonce: u8, text: &str) -> ([u8; 20], [u8; 65]) {
	thread_local! { static KNOWN: RefCell<BTreeMap<(u8, u8, String), ([u8; 20], [u8; 65])>> = Default::default(); }
	let k = (key, nonce, text.to_string());
	if let Some(r) = KNOWN.with(|x| x.borrow().get(&k).copied()) { return r }
	let r = make(key, nonce, text);
	KNOWN.with(|x| x.borrow_mut().insert(k, r));
	r
}
fn make(key: u8, nonce: u8, text: &str) -> ([u8; 20], [u8; 65]) {
	let msg = format!("\x19Ethereum Signed Message:\n{}{text}", text.len());
	let (pk, sig) = sp_io::crypto::secp256k1_sign(U256::from(key) * U256::from(7919u32) + U256::from(11u32), U256::from(nonce as u32 + 1), &keccak_256(msg.as_bytes()));
	(keccak_256(&pk)[12..].try_into().unwrap(), sig)
}
#[derive(Clone, Default)]
struct M { due: BTreeMap<[u8; 20], u128>, bal: BTreeMap<u64, u128>, issued: u128 }
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = (c.ed, c.prefix));
	let address = |k: u8| sign(k, 1, "").0;
	let mut s = M::default();
	for (k, x) in &c.claims { *s.due.entry(address(*k)).or_insert(0) += x; }
	let bal: Vec<(u64, u128)> = ACC.iter().copied().zip(c.bal.iter().copied()).filter(|x| x.1 >= c.ed).collect();
	for (w, x) in &bal { s.bal.insert(*w, *x); s.issued += x; }
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	pallet_claims::GenesisConfig::<Test> { claims: c.claims.iter().map(|(k, x)| (EthereumAddress(address(*k)), *x)).collect() }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			System::reset_events();
			let info = DispatchInfo::default();
			match *o {
				Op::Claim { by, key, of, nonce, bad, unsigned } => {
					let whom = of.unwrap_or(by);
					let text = match bad { Bad::Prefix => format!("{}{}", PREFIXES[(c.prefix + 1) % 3], hex(whom)), Bad::Upper => format!("{}{}", PREFIXES[c.prefix], hex(whom).to_uppercase()), Bad::Short => format!("{}{}", PREFIXES[c.prefix], &hex(whom)[..15]), _ => format!("{}{}", PREFIXES[c.prefix], hex(whom)) };
					let (who, mut sig) = sign(key, nonce, &text);
					let mut good = whom == by && (!matches!(bad, Bad::Prefix | Bad::Upper | Bad::Short) || text == format!("{}{}", PREFIXES[c.prefix], hex(by)));
					match bad {
						Bad::V27 => sig[64] += 27,
						// the other signature of the same key for the same text
						Bad::Mirror => { let z = order() - U256::from_big_endian(&sig[32..64]); z.to_big_endian(&mut sig[32..64]); sig[64] ^= 1; }
						Bad::Flip(i, x) => { sig[i as usize] ^= x; good &= i == 64 && (sig[64] as u32 == (sig[64] ^ x) as u32 + 27 || sig[64] as u32 + 27 == (sig[64] ^ x) as u32); }
						Bad::V(v) => { good &= v == sig[64] || v == sig[64] + 27; sig[64] = v; }
						_ => {}
					}
					let due = s.due.get(&who).copied().unwrap_or(0);
					let valid = good && due > 0;
					let call = RuntimeCall::Claims(pallet_claims::Call::claim { ethereum_signature: EcdsaSignature(sig) });
					let before = state();
					let v = ValidateClaim::<Test>::new().validate(&by, &call, &info, 0);
					let p = ValidateClaim::<Test>::new().pre_dispatch(&by, &call, &info, 0);
					must!(v.is_ok() == valid && p.is_ok() == valid, "{}: transaction valid: {v:?} {p:?}, expected {valid}", what());
					must!(state() == before, "{}: validation changed storage", what());
					let mut n = s.clone();
					let to = n.bal.entry(by).or_insert(0);
					let want = (valid && !unsigned && *to + due >= c.ed).then(|| { *to += due; n.issued += due; n.due.insert(who, 0); });
					let got = atomic(what, || Claims::claim(if unsigned { RawOrigin::None.into() } else { RawOrigin::Signed(by).into() }, EcdsaSignature(sig)).map_err(|e| e.error))?;
					agree(what, &got, &want)?;
					if want.is_some() {
						s = n;
						m.nontrivial();
						m.label("claimed");
						if bad != Bad::No { m.label("another form of the signature"); }
						let e: Vec<E<Test>> = take_events!(Test).into_iter().filter_map(|e| match e { RuntimeEvent::Claims(e) => Some(e), _ => None }).collect();
						ensure_eq!(e, vec![E::Claim(by, EthereumAddress(who), due)], "{}: events", what());
					} else { m.label(if whom != by { "for another account" } else if due == 0 { "nothing due" } else if !good { "bad signature" } else { "refused" }); }
				}
				Op::Pay { from, to, x } => {
					let x = x.of(s.bal.get(&from).copied().unwrap_or(0));
					if Balances::transfer_allow_death(RawOrigin::Signed(from).into(), to, x).is_ok() {
						for w in [from, to] { s.bal.insert(w, Balances::free_balance(w)); }
						s.issued = Balances::total_issuance();
					}
				}
				Op::Other { by } => {
					let call = RuntimeCall::System(frame_system::Call::remark { remark: vec![1] });
					must!(ValidateClaim::<Test>::new().validate(&by, &call, &info, 0).is_ok(), "{}: another call is not valid", what());
				}
			}
			for w in ACC { ensure_eq!(Balances::free_balance(w), s.bal.get(&w).copied().unwrap_or(0), "{}: balance of {w}", what()); }
			ensure_eq!(Balances::total_issuance(), s.issued, "{}: issuance", what());
			for (a, x) in &s.due { ensure_eq!(Claims::claims(EthereumAddress(*a)), *x, "{}: due to {a:?}", what()); }
		}
		Ok(())
	})
}
fn addresses((len, raw, pre, case, spoil): &(usize, Vec<u8>, u8, u64, Option<(usize, char)>), m: &mut Meter) -> Res {
	let digits: String = raw.iter().map(|b| char::from_digit((b % 16) as u32, 16).unwrap()).take(*len).enumerate().map(|(i, c)| if case >> (i % 64) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
	let mut text = format!("{}{digits}", ["0x", "", "0X", "0x0x"][*pre as usize]);
	if let Some((i, c)) = spoil { if *i < text.len() { text.replace_range(*i..*i + 1, &c.to_string()); } }
	let body = text.strip_prefix("0x").unwrap_or(&text);
	let want: Option<[u8; 20]> = (body.len() == 40 && body.bytes().all(|b| b.is_ascii_hexdigit())).then(|| std::array::from_fn(|i| u8::from_str_radix(&body[2 * i..2 * i + 2], 16).unwrap()));
	let got = serde_json::from_value::<EthereumAddress>(serde_json::Value::String(text.clone())).ok();
	ensure_eq!(got.map(|a| a.0), want, "{text:?}");
	if let Some(a) = got {
		m.nontrivial();
		let w = serde_json::to_value(a).map_err(|e| e.to_string())?;
		ensure_eq!(w, serde_json::Value::String(format!("0x{}", body.to_lowercase())), "written");
	}
	Ok(())
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("balances by the stand-in for pallet-balances; public key recovery by the stand-in for sp-io, signatures made by the check from known keys");
	c.check("claims", "histories of claims with right, altered, foreign and repeated signatures against an exact model; non-trivial: something was claimed", 12_000, 200_000, || case(16), run);
	c.check("addresses", "written addresses read back as themselves, with and without prefix and in both cases, other text is refused; non-trivial: a readable address", 20_000, 400_000,
		|| (prop_oneof![6 => Just(40usize), 1 => 36usize..45, 1 => 0usize..50], proptest::collection::vec(any::<u8>(), 50), 0u8..4, any::<u64>(), prop::option::weighted(0.15, (0usize..44, prop::sample::select(vec!['g', 'x', ' ', '0', 'é', '-'])))), addresses);
	std::process::exit(c.finish());
}
