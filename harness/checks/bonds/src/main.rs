use kit::fakes::*;
use kit::*;
use codec::{Decode, Encode};
use frame_support::{traits::{Contains, EnsureOrigin}, PalletId};
use frame_system::RawOrigin;
use hydradx_traits::{registry::{Create, Inspect}, AssetKind};
use pallet_bonds::Event as E;
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Timestamp: pallet_timestamp, Tokens: orml_tokens, Bonds: pallet_bonds });
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { eds: [u128; 4], fee: u32, bonds_of_bonds: bool, white: bool }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { CFG.with(|c| *c.borrow()) }
const KINDS: [AssetKind; 4] = [AssetKind::Token, AssetKind::Token, AssetKind::StableSwap, AssetKind::XYK];
const FEES: u64 = 9;
/// registry kept in storage: id -> (name, kind, ed, sufficient)
pub struct Reg;
#[derive(Encode, Decode, Clone, Debug, PartialEq)]
struct Entry { name: Vec<u8>, bond: bool, ed: u128, sufficient: bool }
fn key(a: AssetId) -> Vec<u8> { (b"fake-reg".to_vec(), a).encode() }
fn entry(a: AssetId) -> Option<Entry> { sp_io::storage::get(&key(a)).map(|v| Entry::decode(&mut &v[..]).unwrap()) }
fn next_id() -> AssetId { (100..).find(|i| entry(*i).is_none()).unwrap() }
impl Inspect for Reg {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(a: AssetId) -> bool { a < 4 }
	fn exists(a: AssetId) -> bool { a < 4 || entry(a).is_some() }
	fn decimals(_: AssetId) -> Option<u8> { Some(12) }
	fn asset_type(a: AssetId) -> Option<AssetKind> { if a < 4 { Some(KINDS[a as usize]) } else { entry(a).map(|e| if e.bond { AssetKind::Bond } else { AssetKind::Token }) } }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(a: AssetId) -> Option<Vec<u8>> { entry(a).map(|e| e.name) }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: AssetId) -> Option<u128> { entry(a).map(|e| e.ed) }
}
impl Create<u128> for Reg {
	type Error = DispatchError;
	type Name = sp_runtime::BoundedVec<u8, ConstU32<32>>;
	type Symbol = sp_runtime::BoundedVec<u8, ConstU32<32>>;
	fn register_asset(id: Option<AssetId>, name: Option<Self::Name>, kind: AssetKind, ed: Option<u128>, symbol: Option<Self::Symbol>, decimals: Option<u8>, location: Option<u8>, limit: Option<u128>, sufficient: bool) -> Result<AssetId, DispatchError> {
		if faulty() { return Err("injected".into()) }
		if symbol.is_some() || location.is_some() || limit.is_some() || decimals.is_some() { push(Act::Custom("extra", vec![])); }
		let i = id.unwrap_or_else(next_id);
		sp_io::storage::set(&key(i), &Entry { name: name.map(|n| n.to_vec()).unwrap_or_default(), bond: kind == AssetKind::Bond, ed: ed.unwrap_or(1), sufficient }.encode());
		Ok(i)
	}
	fn get_or_register_asset(_: Self::Name, _: AssetKind, _: Option<u128>, _: Option<Self::Symbol>, _: Option<u8>, _: Option<u8>, _: Option<u128>, _: bool) -> Result<AssetId, DispatchError> { Err("not used".into()) }
}
orml_traits::parameter_type_with_key! { pub Eds: |a: u32| -> u128 { if *a < 4 { cfg().eds[*a as usize] } else { entry(*a).map_or(1, |e| e.ed) } }; }
parameter_types! {
	pub Id: PalletId = PalletId(*b"py/bonds");
	pub Fee: Permill = Permill::from_parts(cfg().fee);
	pub FeeTo: u64 = FEES;
}
pub struct W;
impl Contains<AssetKind> for W { fn contains(k: &AssetKind) -> bool { match k { AssetKind::Token | AssetKind::StableSwap => true, AssetKind::Bond => cfg().bonds_of_bonds, _ => false } } }
pub struct Holders;
impl Contains<u64> for Holders { fn contains(a: &u64) -> bool { cfg().white && *a == Bonds::pallet_account_id() } }
/// accounts 1 to 3 may issue
pub struct Issuers;
impl EnsureOrigin<RuntimeOrigin> for Issuers {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> { match frame_system::ensure_signed(o.clone()) { Ok(w) if w <= 3 => Ok(w), _ => Err(o) } }
}
system_config!(Test, u64, ());
tokens_config!(Test, Eds, Holders, ());
impl pallet_timestamp::Config for Test { type Moment = u64; type OnTimestampSet = (); type MinimumPeriod = ConstU64<1>; type WeightInfo = (); }
impl pallet_bonds::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type Balance = u128;
	type Currency = Tokens;
	type AssetRegistry = Reg;
	type ExistentialDeposits = Eds;
	type TimestampProvider = Timestamp;
	type PalletId = Id;
	type IssueOrigin = Issuers;
	type AssetTypeWhitelist = W;
	type ProtocolFee = Fee;
	type FeeReceiver = FeeTo;
	type WeightInfo = ();
}
/// An asset: one of the first ones, or the n-th bond.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Id_ { Asset(AssetId), Bond(u8) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Issue { who: u64, a: Id_, x: A, at: u64, fault: bool },
	Redeem { who: Option<u64>, a: Id_, x: A },
	Send { who: u64, to: u64, a: Id_, x: A },
	Time(u64),
}
fn who() -> impl Strategy<Value = u64> { prop_oneof![8 => 1u64..=4, 1 => Just(FEES)] }
fn und() -> impl Strategy<Value = Id_> { prop_oneof![8 => (0u32..3).prop_map(Id_::Asset), 1 => Just(Id_::Asset(3)), 1 => Just(Id_::Asset(77)), 2 => (0u8..6).prop_map(Id_::Bond)] }
fn bond() -> impl Strategy<Value = Id_> { prop_oneof![14 => (0u8..6).prop_map(Id_::Bond), 1 => (0u32..4).prop_map(Id_::Asset)] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		6 => (prop_oneof![6 => 1u64..=3, 1 => who()], und(), prop_oneof![2 => (20_000u32..500_000).prop_map(A::Part), 1 => amt()], prop_oneof![4 => 2u64..7, 1 => 0u64..12], prop::bool::weighted(0.1)).prop_map(|(who, a, x, at, fault)| Op::Issue { who, a, x, at, fault }),
		7 => (prop::option::weighted(0.2, who()), bond(), prop_oneof![1 => (20_000u32..=1_000_000).prop_map(A::Part), 2 => amt()]).prop_map(|(who, a, x)| Op::Redeem { who, a, x }),
		2 => (who(), who(), prop_oneof![3 => bond(), 1 => und()], amt()).prop_map(|(who, to, a, x)| Op::Send { who, to, a, x }),
		2 => (1u64..5).prop_map(Op::Time),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((prop::array::uniform4(prop_oneof![5 => Just(1u128), 2 => 1u128..10_000, 1 => mag(1, 1 << 70)]), prop_oneof![1 => Just(0u32), 4 => 0u32..=1_000_000, 3 => 0u32..50_000, 1 => Just(1_000_000u32)], any::<bool>(), any::<bool>()).prop_map(|(eds, fee, bonds_of_bonds, white)| Cfg { eds, fee, bonds_of_bonds, white }),
		proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, ops)| Case { cfg, ops })
}
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, bonds: Vec<(AssetId, u64)>, now: u64 }
impl M {
	fn id(&self, a: Id_) -> AssetId { match a { Id_::Asset(a) => a, Id_::Bond(n) => if self.bonds.is_empty() { 100 + n as u32 } else { 100 + n as u32 % self.bonds.len() as u32 } } }
	fn holder(&self, w: Option<u64>, a: Id_) -> u64 { let i = self.id(a); w.unwrap_or_else(|| (1..=4).find(|w| self.l.get(w, i) > 0).unwrap_or(1)) }
	fn amount(&self, o: &Op) -> u128 { match o { Op::Issue { who, a, x, .. } | Op::Send { who, a, x, .. } => x.of(self.l.get(who, self.id(*a))), Op::Redeem { who, a, x } => x.of(self.l.get(&self.holder(*who, *a), self.id(*a))), _ => 0 } }
	fn step(&mut self, o: &Op, x: u128, pot: u64) -> Option<Vec<E<Test>>> {
		match *o {
			Op::Issue { who, a, at, fault, .. } => {
				let a = self.id(a);
				let known = a < 4 || a >= 100 && (a as usize - 100) < self.bonds.len();
				if who > 3 || !known || a == 3 || a >= 100 && !cfg().bonds_of_bonds { return None }
				let fee = md_up(x, cfg().fee as u128, 1_000_000)?;
				let rest = x - fee;
				let mut ev = vec![];
				let i = match self.bonds.iter().position(|b| *b == (a, at)) {
					Some(i) => i,
					None => {
						if at < self.now || fault { return None }
						let ed = self.l.ed(a);
						self.l.eds.insert(100 + self.bonds.len() as u32, ed);
						self.bonds.push((a, at));
						ev.push(E::TokenCreated { issuer: who, asset_id: a, bond_id: 99 + self.bonds.len() as u32, maturity: at });
						self.bonds.len() - 1
					}
				};
				let bond_id = 100 + i as u32;
				self.l.mv(a, &who, &pot, rest)?;
				self.l.mv(a, &who, &FEES, fee)?;
				self.l.mint(&who, bond_id, rest)?;
				ev.push(E::Issued { issuer: who, bond_id, amount: rest, fee });
				Some(ev)
			}
			Op::Redeem { who, a, .. } => {
				let (who, bond_id) = (self.holder(who, a), self.id(a));
				if bond_id < 100 { return None }
				let (u, at) = *self.bonds.get(bond_id as usize - 100)?;
				if self.now < at { return None }
				self.l.burn(&who, bond_id, x)?;
				self.l.mv(u, &pot, &who, x)?;
				Some(vec![E::Redeemed { who, bond_id, amount: x }])
			}
			Op::Send { who, to, a, .. } => { let a = self.id(a); self.l.mv(a, &who, &to, x)?; Some(vec![]) }
			Op::Time(n) => { self.now += n; Some(vec![]) }
		}
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg);
	take_acts();
	let pot = Bonds::pallet_account_id();
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { now: 3, ..Default::default() };
	if c.cfg.white { model.l.white.insert(pot); }
	for a in 0..4u32 { model.l.eds.insert(a, c.cfg.eds[a as usize]); }
	let mut bal = vec![];
	for w in 1..=4u64 { for a in 0..4 { let v = (1u128 << (60 + 6 * w)) + c.cfg.eds[a as usize]; bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, 4, FEES, pot];
	fresh(st, || {
		System::set_block_number(1);
		Timestamp::set_timestamp(3);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let x = model.amount(o);
			let mut next = model.clone();
			let want = next.step(o, x, pot);
			System::reset_events();
			set_fault(matches!(o, Op::Issue { fault: true, .. }));
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let got = atomic(what, || match *o {
				Op::Issue { who, a, at, .. } => Bonds::issue(sg(who), model.id(a), x, at),
				Op::Redeem { who, a, .. } => Bonds::redeem(sg(model.holder(who, a)), model.id(a), x),
				Op::Send { who, to, a, .. } => Tokens::transfer(sg(who), to, model.id(a), x),
				Op::Time(_) => { Timestamp::set_timestamp(next.now); Ok(()) }
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let old = std::mem::replace(&mut model, next);
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::Bonds(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out, "{}: events", what());
			match o {
				Op::Issue { at, .. } => { m.label(if model.bonds.len() > old.bonds.len() { "first issue" } else if *at < model.now { "issue of mature" } else { "later issue" }); }
				Op::Redeem { .. } => { if x > 0 { m.nontrivial(); } m.label("redeem") }
				_ => {}
			}
			let assets: Vec<u32> = (0..4).chain(100..100 + model.bonds.len() as u32 + 1).collect();
			same_ledger(&model.l, &accounts, &assets, |a, w| Tokens::free_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for (i, (u, at)) in model.bonds.iter().enumerate() {
				let id = 100 + i as u32;
				ensure_eq!(Bonds::bond(id), Some((*u, *at)), "{}: bond {id}", what());
				ensure_eq!(Bonds::bond_id((*u, *at)), Some(id), "{}: bond of {u} at {at}", what());
				let name: Vec<u8> = [&u.to_le_bytes()[..], b".", &at.to_le_bytes()[..]].concat();
				ensure_eq!(entry(id), Some(Entry { name: name.clone(), bond: true, ed: model.l.ed(*u), sufficient: false }), "{}: registered bond {id}", what());
				ensure_eq!(Bonds::parse_bond_name(name).ok(), Some(*u), "{}: name of {id}", what());
			}
			ensure_that!(Bonds::bond(100 + model.bonds.len() as u32).is_none(), "{}: unknown bond", what());
			// every bond is backed
			let mut owed: BTreeMap<u32, u128> = BTreeMap::new();
			for (i, (u, _)) in model.bonds.iter().enumerate() { *owed.entry(*u).or_insert(0) += Tokens::total_issuance(100 + i as u32); }
			for (u, v) in owed { ensure_eq!(Tokens::free_balance(u, &pot), v, "{}: backing of the bonds of {u}", what()); }
			ensure_eq!(take_acts(), vec![], "{}: registration", what());
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency by the stand-in for orml-tokens; asset registry by a stand-in kept in storage");
	c.check("bonds", "histories of issuing, moving and redeeming bonds of several assets and maturities while time passes, against an exact ledger; non-trivial: a bond was redeemed", 100_000, 2_000_000, || case(24), run);
	std::process::exit(c.finish());
}
