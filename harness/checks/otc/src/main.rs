use kit::fakes::*;
use kit::*;
use frame_system::RawOrigin;
use orml_traits::{NamedMultiReservableCurrency};
use pallet_otc::{Event as E, Order, NAMED_RESERVE_ID};
use std::cell::RefCell;
use std::collections::BTreeMap;

construct_runtime!(pub enum Test { System: frame_system, Tokens: orml_tokens, OTC: pallet_otc });
#[derive(Clone, Copy, Debug, Default, Serialize, Deserialize)]
pub struct Cfg { eds: [u128; 4], mult: u8, first: u32 }
thread_local! { static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { CFG.with(|c| *c.borrow()) }
orml_traits::parameter_type_with_key! { pub Eds: |a: u32| -> u128 { cfg().eds[*a as usize % 4] }; }
parameter_types! { pub Mult: u8 = cfg().mult; }
system_config!(Test, u64, ());
tokens_config!(Test, Eds, Nothing, ());
impl pallet_otc::Config for Test {
	type AssetId = AssetId;
	type AssetRegistry = Registry;
	type Currency = Tokens;
	type RuntimeEvent = RuntimeEvent;
	type ExistentialDeposits = Eds;
	type ExistentialDepositMultiplier = Mult;
	type WeightInfo = ();
}
const OTHER: [u8; 8] = *b"other___";
const ASSETS: [AssetId; 4] = [0, 1, 2, 3]; // 3 is not registered

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Place { who: u64, a: AssetId, b: AssetId, x: A, y: A, part: bool },
	Partial { who: u64, id: u32, x: A },
	/// leave the given amount, relative to the smallest allowed one, of the wanted (in) or offered asset
	Nearly { who: u64, id: u32, left: i8, of_in: bool },
	Fill { who: u64, id: u32 },
	Cancel { who: Option<u64>, id: u32 },
	Send { who: u64, to: u64, a: AssetId, x: A },
	Reserve { who: u64, a: AssetId, x: A, back: bool },
}
fn who() -> impl Strategy<Value = u64> { 1u64..=4 }
fn pr() -> impl Strategy<Value = (AssetId, AssetId)> { prop_oneof![12 => prop::sample::select(vec![(0u32, 1u32), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)]), 1 => (0u32..4, 0u32..4)] }
/// relative to the smallest allowed amount, or to what is owned
fn size() -> impl Strategy<Value = A> { prop_oneof![3 => mag(1, 1 << 90).prop_map(A::Abs), 2 => (-2i16..=40).prop_map(A::Off), 1 => mag(0, u128::MAX).prop_map(A::Abs)] }
fn op() -> impl Strategy<Value = Op> {
	prop_oneof![
		6 => (who(), pr(), size(), size(), prop::bool::weighted(0.75)).prop_map(|(who, (a, b), x, y, part)| Op::Place { who, a, b, x, y, part }),
		8 => (who(), 0u32..6, amt()).prop_map(|(who, id, x)| Op::Partial { who, id, x }),
		4 => (who(), 0u32..6, -2i8..=2, any::<bool>()).prop_map(|(who, id, left, of_in)| Op::Nearly { who, id, left, of_in }),
		3 => (who(), 0u32..6).prop_map(|(who, id)| Op::Fill { who, id }),
		2 => (prop::option::weighted(0.3, who()), 0u32..6).prop_map(|(who, id)| Op::Cancel { who, id }),
		1 => (who(), who(), 0u32..3, amt()).prop_map(|(who, to, a, x)| Op::Send { who, to, a, x }),
		1 => (who(), 0u32..3, amt(), any::<bool>()).prop_map(|(who, a, x, back)| Op::Reserve { who, a, x, back }),
	]
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { cfg: Cfg, ops: Vec<Op> }
fn case(n: usize) -> impl Strategy<Value = Case> {
	((prop::array::uniform4(prop_oneof![2 => Just(1u128), 2 => 1u128..10_000, 1 => Just(0u128), 1 => mag(1, 1 << 70)]), prop_oneof![4 => 0u8..10, 1 => any::<u8>()], prop_oneof![9 => Just(0u32), 1 => Just(u32::MAX - 2)]).prop_map(|(eds, mult, first)| Cfg { eds, mult, first }),
		proptest::collection::vec(op(), 1..n)).prop_map(|(cfg, mut ops)| {
		// start with some orders
		let extra: Vec<Op> = ops.iter().filter(|o| matches!(o, Op::Place { .. })).take(2).cloned().collect();
		for e in extra { ops.insert(0, e); }
		Case { cfg, ops }
	})
}
type O = Order<u64, AssetId>;
#[derive(Clone, Debug, Default)]
struct M { l: Ledger, orders: BTreeMap<u32, O>, other: BTreeMap<(u64, AssetId), u128>, next: u32 }
impl M {
	fn ed(&self, a: AssetId) -> u128 { cfg().eds[a as usize] }
	fn smallest(&self, a: AssetId) -> Option<u128> { self.ed(a).checked_mul(cfg().mult as u128) }
	fn enough(&self, a: AssetId, x: u128) -> bool { self.smallest(a).map_or(false, |s| x >= s) }
	fn reserved(&self, w: u64, a: AssetId) -> u128 { self.orders.values().filter(|o| o.owner == w && o.asset_out == a).map(|o| o.amount_out).sum() }
	fn lock(&mut self) {
		let mut l = self.other.clone();
		for o in self.orders.values() { *l.entry((o.owner, o.asset_out)).or_insert(0) += o.amount_out; }
		self.l.locks = l.into_iter().filter(|x| x.1 > 0).collect();
	}
	fn amount(&self, o: &Op) -> (u128, u128) {
		let base = |a: &AssetId, x: &A| match x { A::Off(d) if *d >= 20 => x.of(self.smallest(*a).unwrap_or(0)) / 20 * (*d as u128 - 19), _ => x.of(self.smallest(*a).unwrap_or(0)) };
		match o {
			Op::Place { a, b, x, y, .. } => (base(a, x), base(b, y)),
			Op::Partial { id, x, .. } => (self.order(*id).map_or(1, |o| x.of(o.amount_in)), 0),
			Op::Nearly { id, left, of_in, .. } => match self.order(*id) {
				None => (1, 0),
				Some(o) => {
					let d = |x: u128| if *left < 0 { x.saturating_sub(left.unsigned_abs() as u128) } else { x.saturating_add(*left as u128) };
					if *of_in { (o.amount_in.saturating_sub(d(self.smallest(o.asset_in).unwrap_or(0))), 0) }
					else { let out = o.amount_out.saturating_sub(d(self.smallest(o.asset_out).unwrap_or(0))); (quo_up(b(o.amount_in) * b(out), b(o.amount_out)).unwrap_or(0), 0) }
				}
			},
			Op::Send { who, a, x, .. } | Op::Reserve { who, a, x, .. } => (x.of(self.l.get(who, *a) - self.l.locked(who, *a)), 0),
			_ => (0, 0),
		}
	}
	fn id(&self, id: u32) -> u32 { let n = self.orders.len() as u32; if n == 0 || id == 5 { cfg().first.wrapping_add(id) } else { *self.orders.keys().nth((id % n) as usize).unwrap() } }
	fn order(&self, id: u32) -> Option<&O> { self.orders.get(&self.id(id)) }
	fn owner(&self, w: Option<u64>, id: u32) -> u64 { w.unwrap_or_else(|| self.order(id).map_or(1, |o| o.owner)) }
	/// the taker pays, the offered amount leaves the reserve
	fn execute(&mut self, id: u32, who: u64, x: u128, y: u128, done: bool) -> Option<()> {
		let o = self.orders.get(&id)?.clone();
		self.l.mv(o.asset_in, &who, &o.owner, x)?;
		if done { self.orders.remove(&id); } else { let e = self.orders.get_mut(&id)?; e.amount_in -= x; e.amount_out -= y; }
		self.lock();
		self.l.mv(o.asset_out, &o.owner, &who, y)
	}
	fn step(&mut self, op: &Op, x: u128, y: u128) -> Option<Option<E<Test>>> {
		match *op {
			Op::Place { who, a, b, part, .. } => {
				if a == 3 || !self.enough(a, x) || !self.enough(b, y) { return None }
				if self.l.get(&who, b) < self.l.locked(&who, b).checked_add(y)? { return None }
				let order_id = self.next;
				self.next = self.next.checked_add(1)?;
				self.orders.insert(order_id, Order { owner: who, asset_in: a, asset_out: b, amount_in: x, amount_out: y, partially_fillable: part });
				self.lock();
				Some(Some(E::Placed { order_id, asset_in: a, asset_out: b, amount_in: x, amount_out: y, partially_fillable: part }))
			}
			Op::Partial { who, id, .. } | Op::Nearly { who, id, .. } => {
				let o = self.order(id)?.clone();
				let id = self.id(id);
				if !o.partially_fillable { return None }
				let y = quo(b(o.amount_out) * b(x), b(o.amount_in))?;
				if !self.enough(o.asset_in, o.amount_in.checked_sub(x)?) || !self.enough(o.asset_out, o.amount_out.checked_sub(y)?) { return None }
				self.execute(id, who, x, y, false)?;
				Some(Some(E::PartiallyFilled { order_id: id, who, amount_in: x, amount_out: y }))
			}
			Op::Fill { who, id } => {
				let o = self.order(id)?.clone();
				let id = self.id(id);
				self.execute(id, who, o.amount_in, o.amount_out, true)?;
				Some(Some(E::Filled { order_id: id, who, amount_in: o.amount_in, amount_out: o.amount_out }))
			}
			Op::Cancel { who, id } => {
				let who = self.owner(who, id);
				let i = self.id(id);
				if self.orders.get(&i)?.owner != who { return None }
				self.orders.remove(&i);
				self.lock();
				Some(Some(E::Cancelled { order_id: i }))
			}
			Op::Send { who, to, a, .. } => { self.l.mv(a, &who, &to, x)?; Some(None) }
			Op::Reserve { who, a, back, .. } => {
				let e = self.other.entry((who, a)).or_insert(0);
				if back { *e = e.saturating_sub(x) } else { *e += x }
				if self.l.get(&who, a) < self.l.locked(&who, a) + if back { 0 } else { x } { return None }
				self.lock();
				Some(None)
			}
		}
	}
}
fn run(c: &Case, m: &mut Meter) -> Res {
	CFG.with(|x| *x.borrow_mut() = c.cfg);
	set_registry(&[(0, Some(12), 1, true), (1, Some(12), 1, true), (2, Some(12), 1, true)]);
	let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	let mut model = M { next: c.cfg.first, ..Default::default() };
	for a in ASSETS { model.l.eds.insert(a, c.cfg.eds[a as usize]); }
	let mut bal = vec![];
	for w in 1..=4u64 { for a in ASSETS { if w == 4 && a == 1 { continue } let v = (1u128 << (82 + w)) + c.cfg.eds[a as usize]; bal.push((w, a, v)); model.l.mint(&w, a, v); } }
	orml_tokens::GenesisConfig::<Test> { balances: bal }.assimilate_storage(&mut st).unwrap();
	let accounts = [1u64, 2, 3, 4];
	fresh(st, || {
		System::set_block_number(1);
		pallet_otc::NextOrderId::<Test>::put(c.cfg.first);
		for (i, o) in c.ops.iter().enumerate() {
			let what = || format!("op {i} {o:?}");
			let (x, y) = model.amount(o);
			let mut next = model.clone();
			let want = next.step(o, x, y);
			System::reset_events();
			let sg = |w: u64| RuntimeOrigin::from(RawOrigin::Signed(w));
			let got = atomic(what, || match *o {
				Op::Place { who, a, b, part, .. } => OTC::place_order(sg(who), a, b, x, y, part),
				Op::Partial { who, id, .. } | Op::Nearly { who, id, .. } => OTC::partial_fill_order(sg(who), model.id(id), x),
				Op::Fill { who, id } => OTC::fill_order(sg(who), model.id(id)),
				Op::Cancel { who, id } => OTC::cancel_order(sg(model.owner(who, id)), model.id(id)),
				Op::Send { who, to, a, .. } => Tokens::transfer(sg(who), to, a, x),
				Op::Reserve { who, a, back, .. } => if back { Tokens::unreserve_named(&OTHER, a, &who, x); Ok(()) } else { Tokens::reserve_named(&OTHER, a, &who, x) },
			})?;
			agree(what, &got, &want)?;
			let Some(out) = want else { m.label("refused"); continue };
			let old = std::mem::replace(&mut model, next);
			let ev: Vec<_> = take_events!(Test).into_iter().filter_map(|e| if let RuntimeEvent::OTC(e) = e { Some(e) } else { None }).collect();
			ensure_eq!(ev, out.into_iter().collect::<Vec<_>>(), "{}: events", what());
			match o {
				Op::Place { .. } => m.label("place"),
				Op::Partial { id, who, .. } | Op::Nearly { id, who, .. } => {
					if x > 0 { m.nontrivial(); }
					m.label("partial fill");
					let (o, n) = (old.order(*id).unwrap(), &model.orders[&old.id(*id)]);
					if o.owner == *who { m.label("own order"); }
					// the maker's price never gets worse
					ensure_that!(b(o.amount_out - n.amount_out) * b(o.amount_in) <= b(o.amount_in - n.amount_in) * b(o.amount_out), "{}: worse price for the maker", what());
				}
				Op::Fill { .. } => { m.nontrivial(); m.label("fill") }
				Op::Cancel { .. } => m.label("cancel"),
				_ => {}
			}
			same_ledger(&model.l, &accounts, &ASSETS, |a, w| <Tokens as MultiCurrency<u64>>::total_balance(a, w), Tokens::total_issuance).map_err(|e| format!("{}: {e}", what()))?;
			for w in accounts { for a in ASSETS {
				ensure_eq!(Tokens::reserved_balance_named(&NAMED_RESERVE_ID, a, &w), model.reserved(w, a), "{}: reserve of {w} in {a}", what());
				ensure_eq!(Tokens::reserved_balance_named(&OTHER, a, &w), model.other.get(&(w, a)).copied().unwrap_or(0), "{}: foreign reserve of {w} in {a}", what());
				ensure_eq!(Tokens::reserved_balance(a, &w), model.l.locked(&w, a), "{}: whole reserve of {w} in {a}", what());
			} }
			let all: BTreeMap<u32, O> = pallet_otc::Orders::<Test>::iter().collect();
			ensure_eq!(all, model.orders, "{}: orders", what());
			ensure_eq!(OTC::next_order_id(), model.next, "{}: next id", what());
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("multi-currency and named reserves by the stand-in for orml-tokens; registry by a table");
	c.check("orders", "histories of placing, filling (wholly, partly, down to the allowed remainder) and cancelling orders with foreign reserves on the same accounts against an exact ledger; non-trivial: an order was filled", 120_000, 2_000_000, || case(24), run);
	std::process::exit(c.finish());
}
