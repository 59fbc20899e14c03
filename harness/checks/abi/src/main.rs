//! Contract ABI: what the precompiles read from call data and write back, against an encoder and a decoder written here
//! from the ABI's definition (head and tail).
use hydradx_evm::evm::precompiles as rt;
use kit::*;
use precompile_utils::prelude as pu;
use precompile_utils::solidity::{self, Codec};
use sp_core::{H160, H256, U256 as W};

macro_rules! eq { ($what:expr, $a:expr, $b:expr) => { { let (a, b) = ($a, $b); if a != b { return Err(format!("{}: {:?}, expected {:?}", $what, a, b)) } } } }
#[derive(Clone, Debug, PartialEq)]
enum Ty { U(u32), H, Addr, Bool, Arr(Box<Ty>, u32), Str(u32, bool), Tup(Vec<Ty>), Struct(Vec<Ty>), Conv(Box<Ty>, u32) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum V { N([u64; 4]), B(Vec<u8>), L(Vec<V>) }
fn n(w: W) -> V { V::N(w.0) }
impl V {
	fn w(&self) -> W { match self { V::N(x) => W(*x), _ => W::zero() } }
	fn b(&self) -> Vec<u8> { match self { V::B(x) => x.clone(), _ => vec![] } }
	fn l(&self) -> &[V] { match self { V::L(x) => x, _ => &[] } }
}
fn word(w: W) -> Vec<u8> { let mut b = [0u8; 32]; w.to_big_endian(&mut b); b.to_vec() }
impl Ty {
	fn dynamic(&self) -> bool { match self { Ty::Arr(..) | Ty::Str(..) => true, Ty::Tup(t) | Ty::Struct(t) => t.iter().any(|t| t.dynamic()), Ty::Conv(t, _) => t.dynamic(), _ => false } }
	fn name(&self) -> String {
		match self {
			Ty::U(b) => format!("uint{b}"),
			Ty::H => "bytes32".into(),
			Ty::Addr => "address".into(),
			Ty::Bool => "bool".into(),
			Ty::Arr(t, _) => format!("{}[]", t.name()),
			Ty::Str(_, s) => if *s { "string".into() } else { "bytes".into() },
			Ty::Tup(t) | Ty::Struct(t) => format!("({})", t.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")),
			Ty::Conv(t, _) => t.name(),
		}
	}
	fn body(&self, v: &V) -> Vec<u8> {
		match self {
			Ty::Arr(t, _) => { let l: Vec<_> = v.l().iter().map(|v| (&**t, v)).collect(); [word(l.len().into()), seq(&l)].concat() }
			Ty::Str(..) => { let mut b = v.b(); let n = b.len(); b.resize((n + 31) / 32 * 32, 0); [word(n.into()), b].concat() }
			Ty::Tup(t) | Ty::Struct(t) => seq(&t.iter().zip(v.l()).collect::<Vec<_>>()),
			Ty::Conv(t, _) => t.body(v),
			_ => word(v.w()),
		}
	}
	fn args(&self, v: &V) -> Vec<u8> { match self { Ty::Tup(_) => self.body(v), _ => seq(&[(self, v)]) } }
	/// decoding of what starts at `d`; static types consume words
	fn take(&self, d: &[u8], at: &mut usize) -> Option<V> {
		let mut next = || { let w = d.get(*at..*at + 32).map(W::from_big_endian); *at += 32; w };
		if self.dynamic() {
			let off = next()?;
			if off >= d.len().into() { return None }
			return self.whole(&d[off.as_usize()..])
		}
		Some(match self {
			Ty::Tup(t) | Ty::Struct(t) => V::L(t.iter().map(|t| t.take(d, at)).collect::<Option<_>>()?),
			Ty::U(bits) => { let w = next()?; if *bits < 256 && w >> *bits != W::zero() { return None } n(w) }
			Ty::Conv(t, bits) => { let w = t.take(d, at)?; if w.w() >> *bits != W::zero() { return None } w }
			Ty::Addr => n(next()? & ((W::one() << 160) - 1)),
			Ty::Bool => n(W::from(!next()?.is_zero() as u8)),
			_ => n(next()?),
		})
	}
	fn whole(&self, d: &[u8]) -> Option<V> {
		let len = || { let w = W::from_big_endian(d.get(..32)?); if w > d.len().into() { None } else { Some(w.as_usize()) } };
		match self {
			Ty::Str(max, _) => { let k = len()?; if k > *max as usize { None } else { d.get(32..32 + k).map(|b| V::B(b.to_vec())) } }
			Ty::Arr(t, max) => {
				let k = len()?;
				if k > *max as usize { return None }
				let (d, mut at) = (&d[32..], 0);
				(0..k).map(|_| t.take(d, &mut at)).collect::<Option<_>>().map(V::L)
			}
			Ty::Tup(t) | Ty::Struct(t) => { let mut at = 0; t.iter().map(|t| t.take(d, &mut at)).collect::<Option<_>>().map(V::L) }
			_ => unreachable!(),
		}
	}
	fn unargs(&self, d: &[u8]) -> Option<V> { match self { Ty::Tup(_) => self.whole(d), _ => self.take(d, &mut 0) } }
	/// longer than the type allows
	fn fits(&self, v: &V) -> bool {
		match self {
			Ty::Arr(t, max) => v.l().len() <= *max as usize && v.l().iter().all(|v| t.fits(v)),
			Ty::Str(max, _) => v.b().len() <= *max as usize,
			Ty::Tup(t) | Ty::Struct(t) => t.iter().zip(v.l()).all(|(t, v)| t.fits(v)),
			_ => true,
		}
	}
	fn gen(&self) -> BoxedStrategy<V> {
		match self {
			Ty::U(b) => num(*b), Ty::H => num(256), Ty::Addr => num(160), Ty::Bool => num(1), Ty::Conv(_, b) => num(*b),
			Ty::Arr(t, max) => proptest::collection::vec(t.gen(), 0..=(*max as usize + 1).min(4)).prop_map(V::L).boxed(),
			Ty::Str(..) => prop_oneof![4 => bytes(0..40), 1 => bytes(31..34), 1 => bytes(63..66), 1 => bytes(90..200)].boxed(),
			Ty::Tup(t) | Ty::Struct(t) => t.iter().map(|t| t.gen()).collect::<Vec<_>>().prop_map(V::L).boxed(),
		}
	}
}
fn seq(items: &[(&Ty, &V)]) -> Vec<u8> {
	let heads: usize = items.iter().map(|(t, v)| if t.dynamic() { 32 } else { t.body(v).len() }).sum();
	let (mut head, mut tail) = (vec![], vec![]);
	for (t, v) in items { if t.dynamic() { head.extend(word((heads + tail.len()).into())); tail.extend(t.body(v)) } else { head.extend(t.body(v)) } }
	head.extend(tail);
	head
}
fn bytes(r: std::ops::Range<usize>) -> BoxedStrategy<V> { proptest::collection::vec(any::<u8>(), r).prop_map(V::B).boxed() }
fn num(bits: u32) -> BoxedStrategy<V> {
	let cut = move |w: W| if bits == 256 { w } else { w & ((W::one() << bits) - 1) };
	prop_oneof![
		3 => any::<[u64; 4]>().prop_map(move |x| n(cut(W(x)))),
		2 => (0u32..bits).prop_map(|s| n(W::one() << s)),
		2 => (0u64..70).prop_map(move |x| n(cut(x.into()))),
		1 => Just(n(cut(W::MAX))),
	].boxed()
}

/// A type of the code under test, its description here, and the way between values.
trait T: Codec + Clone { fn ty() -> Ty; fn mk(v: &V) -> Self; fn back(self) -> V; }
macro_rules! uints { ($($t:ty),*) => { $(impl T for $t { fn ty() -> Ty { Ty::U(<$t>::BITS) } fn mk(v: &V) -> Self { v.w().as_u128() as $t } fn back(self) -> V { n(self.into()) } })* } }
uints!(u8, u16, u32, u64, u128);
impl T for W { fn ty() -> Ty { Ty::U(256) } fn mk(v: &V) -> Self { v.w() } fn back(self) -> V { n(self) } }
impl T for H256 { fn ty() -> Ty { Ty::H } fn mk(v: &V) -> Self { H256::from_slice(&word(v.w())) } fn back(self) -> V { n(W::from_big_endian(&self.0)) } }
impl T for bool { fn ty() -> Ty { Ty::Bool } fn mk(v: &V) -> Self { v.w() == W::one() } fn back(self) -> V { n((self as u8).into()) } }
impl T for pu::Address { fn ty() -> Ty { Ty::Addr } fn mk(v: &V) -> Self { pu::Address(H160::from_slice(&word(v.w())[12..])) } fn back(self) -> V { n(W::from_big_endian(&self.0 .0)) } }
impl<A: T> T for Vec<A> { fn ty() -> Ty { Ty::Arr(Box::new(A::ty()), u32::MAX) } fn mk(v: &V) -> Self { v.l().iter().map(A::mk).collect() } fn back(self) -> V { V::L(self.into_iter().map(A::back).collect()) } }
impl<A: T, S: Get<u32> + Clone> T for pu::BoundedVec<A, S> { fn ty() -> Ty { Ty::Arr(Box::new(A::ty()), S::get()) } fn mk(v: &V) -> Self { v.l().iter().map(A::mk).collect::<Vec<_>>().into() } fn back(self) -> V { V::L(Vec::<A>::from(self).into_iter().map(A::back).collect()) } }
impl<S: Get<u32>> T for pu::BoundedBytes<S> { fn ty() -> Ty { Ty::Str(S::get(), false) } fn mk(v: &V) -> Self { v.b().into() } fn back(self) -> V { V::B(self.as_bytes().to_vec()) } }
impl<S: Get<u32>> T for pu::BoundedString<S> { fn ty() -> Ty { Ty::Str(S::get(), true) } fn mk(v: &V) -> Self { v.b().into() } fn back(self) -> V { V::B(self.into()) } }
impl T for pu::Convert<W, u64> { fn ty() -> Ty { Ty::Conv(Box::new(Ty::U(256)), 64) } fn mk(v: &V) -> Self { v.w().as_u64().into() } fn back(self) -> V { n(self.converted().into()) } }
impl T for pu::Convert<W, u128> { fn ty() -> Ty { Ty::Conv(Box::new(Ty::U(256)), 128) } fn mk(v: &V) -> Self { v.w().as_u128().into() } fn back(self) -> V { n(self.converted().into()) } }
macro_rules! tuples { ($($($a:ident $i:tt),+;)*) => { $(impl<$($a: T),+> T for ($($a,)+) { fn ty() -> Ty { Ty::Tup(vec![$($a::ty()),+]) } fn mk(v: &V) -> Self { ($($a::mk(&v.l()[$i]),)+) } fn back(self) -> V { V::L(vec![$(self.$i.back()),+]) } })* } }
tuples!(A 0; A 0, B 1; A 0, B 1, C 2; A 0, B 1, C 2, D 3; A 0, B 1, C 2, D 3, E 4; A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8; );
#[derive(Clone, solidity::Codec)]
struct Fixed { a: u128, b: bool, c: pu::Address }
#[derive(Clone, solidity::Codec)]
struct Loose { a: Vec<Fixed>, b: u8, c: pu::UnboundedString }
#[derive(Clone, solidity::Codec)]
struct Deep<X> { a: X, b: Loose, c: Vec<Vec<u16>>, d: Fixed }
impl T for Fixed { fn ty() -> Ty { Ty::Struct(vec![Ty::U(128), Ty::Bool, Ty::Addr]) } fn mk(v: &V) -> Self { let l = v.l(); Fixed { a: T::mk(&l[0]), b: T::mk(&l[1]), c: T::mk(&l[2]) } } fn back(self) -> V { V::L(vec![self.a.back(), self.b.back(), self.c.back()]) } }
impl T for Loose { fn ty() -> Ty { Ty::Struct(vec![Vec::<Fixed>::ty(), Ty::U(8), pu::UnboundedString::ty()]) } fn mk(v: &V) -> Self { let l = v.l(); Loose { a: T::mk(&l[0]), b: T::mk(&l[1]), c: T::mk(&l[2]) } } fn back(self) -> V { V::L(vec![self.a.back(), self.b.back(), self.c.back()]) } }
impl<X: T> T for Deep<X> { fn ty() -> Ty { Ty::Struct(vec![X::ty(), Loose::ty(), Vec::<Vec<u16>>::ty(), Fixed::ty()]) } fn mk(v: &V) -> Self { let l = v.l(); Deep { a: T::mk(&l[0]), b: T::mk(&l[1]), c: T::mk(&l[2]), d: T::mk(&l[3]) } } fn back(self) -> V { V::L(vec![self.a.back(), self.b.back(), self.c.back(), self.d.back()]) } }
type Short = pu::BoundedBytes<ConstU32<40>>;
type Name = pu::BoundedString<ConstU32<33>>;
type Few<A> = pu::BoundedVec<A, ConstU32<3>>;
macro_rules! with { ($i:expr, $t:ident => $e:expr) => { match $i {
	0 => { type $t = W; $e } 1 => { type $t = u8; $e } 2 => { type $t = (u16, u32, u64, u128); $e } 3 => { type $t = (bool, H256, pu::Address); $e }
	4 => { type $t = pu::UnboundedBytes; $e } 5 => { type $t = Vec<u8>; $e } 6 => { type $t = Few<pu::Address>; $e } 7 => { type $t = Short; $e }
	8 => { type $t = (pu::Address, pu::Address, W, Short, u64, W, u8, H256, H256); $e } 9 => { type $t = Vec<Vec<u64>>; $e } 10 => { type $t = Vec<(u8, Name)>; $e } 11 => { type $t = (W, (bool, Vec<u32>), Name); $e }
	12 => { type $t = Fixed; $e } 13 => { type $t = Loose; $e } 14 => { type $t = Deep<u8>; $e } 15 => { type $t = Deep<Few<Loose>>; $e }
	16 => { type $t = (pu::Convert<W, u64>, pu::Convert<W, u128>); $e } 17 => { type $t = (Vec<Fixed>, Fixed); $e } 18 => { type $t = ((u8, u16), (Vec<bool>, (H256, Vec<Short>))); $e } 19 => { type $t = Vec<Vec<Vec<Name>>>; $e }
	20 => { type $t = (Few<(pu::Address, W)>,); $e } 21 => { type $t = (Fixed, Loose, u8); $e } 22 => { type $t = Few<Few<u128>>; $e } _ => { type $t = (Loose, Vec<Loose>); $e }
} } }
const TYPES: u8 = 24;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit { Word(u16, [u64; 4]), Add(u16, i16), Byte(u16, u8), Cut(u16), Grow(Vec<u8>), Copy(u16, u16) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { ty: u8, v: V, sel: u32, edits: Vec<Edit> }
fn odd() -> BoxedStrategy<[u64; 4]> {
	prop_oneof![
		4 => (0u64..24).prop_map(|x| [x * 32, 0, 0, 0]),
		2 => (0u64..400).prop_map(|x| [x, 0, 0, 0]),
		1 => prop_oneof![Just(u64::MAX), Just(u64::MAX - 31), Just(u64::MAX - 32), Just(u32::MAX as u64), Just(u32::MAX as u64 + 1), Just(1 << 63)].prop_map(|x| [x, 0, 0, 0]),
		1 => prop_oneof![Just([0, 1, 0, 0]), Just([32, 1, 0, 0]), Just([32, 0, 0, 1]), Just([u64::MAX; 4]), Just([0, 0, 1, 0])],
		1 => any::<[u64; 4]>(),
	].boxed()
}
fn edit() -> BoxedStrategy<Edit> {
	prop_oneof![5 => (any::<u16>(), odd()).prop_map(|(i, w)| Edit::Word(i, w)), 3 => (any::<u16>(), prop_oneof![Just(-32i16), Just(32), -2i16..3, -100i16..100]).prop_map(|(i, d)| Edit::Add(i, d)), 1 => any::<(u16, u8)>().prop_map(|(i, b)| Edit::Byte(i, b)), 2 => any::<u16>().prop_map(Edit::Cut), 1 => proptest::collection::vec(any::<u8>(), 0..70).prop_map(Edit::Grow), 1 => any::<(u16, u16)>().prop_map(|(a, b)| Edit::Copy(a, b))].boxed()
}
fn edited(mut d: Vec<u8>, edits: &[Edit]) -> Vec<u8> {
	for e in edits {
		let words = d.len() / 32;
		match e {
			Edit::Grow(b) => d.extend(b),
			_ if words == 0 => {}
			Edit::Word(i, w) => { let i = *i as usize % words * 32; d[i..i + 32].copy_from_slice(&word(W(*w))) }
			Edit::Add(i, x) => { let i = *i as usize % words * 32; let w = W::from_big_endian(&d[i..i + 32]); let (w, _) = if *x < 0 { w.overflowing_sub(x.unsigned_abs().into()) } else { w.overflowing_add((*x as u64).into()) }; d[i..i + 32].copy_from_slice(&word(w)) }
			Edit::Byte(i, b) => { let i = *i as usize % d.len(); d[i] = *b }
			Edit::Cut(i) => { let k = *i as usize % (d.len() + 1); d.truncate(k) }
			Edit::Copy(a, b) => { let (a, b) = (*a as usize % words * 32, *b as usize % words * 32); d.copy_within(a..a + 32, b) }
		}
	}
	d
}
fn case(edits: usize) -> BoxedStrategy<Case> {
	(0..TYPES).prop_flat_map(move |ty| (with!(ty, X => X::ty().gen()), any::<u32>(), proptest::collection::vec(edit(), (edits > 0) as usize..=edits)).prop_map(move |(v, sel, edits)| Case { ty, v, sel, edits })).boxed()
}
fn decoded<X: T>(d: &[u8]) -> Result<Option<V>, String> { no_panic(|| solidity::decode_arguments::<X>(d).ok().map(X::back)).map_err(|e| format!("panic: {e}")) }
fn exact(c: &Case, m: &mut Meter) -> Res {
	fn go<X: T>(c: &Case, m: &mut Meter) -> Res {
		let t = X::ty();
		let want = t.args(&c.v);
		let x = || X::mk(&c.v);
		eq!("kind of type", X::has_static_size(), !t.dynamic());
		eq!("signature", X::signature(), t.name());
		eq!("encoding", solidity::encode_arguments(x()), want.clone());
		eq!("return value", solidity::encode_return_value(x()), want.clone());
		eq!("event data", solidity::encode_event_data(x()), want.clone());
		let call = solidity::encode_with_selector(c.sel, x());
		eq!("call data", call.clone(), [c.sel.to_be_bytes().to_vec(), want.clone()].concat());
		eq!("selector", solidity::codec::selector(&call), Some(c.sel));
		let fits = t.fits(&c.v);
		let want_back = fits.then(|| c.v.clone());
		eq!("oracle", t.unargs(&want), want_back.clone());
		eq!("decoding", decoded::<X>(&want)?, want_back.clone());
		eq!("decoding of a return value", solidity::decode_return_value::<X>(&want).ok().map(X::back), want_back.clone());
		eq!("decoding of event data", solidity::decode_event_data::<X>(&want).ok().map(X::back), want_back);
		m.label(if !fits { "longer than allowed" } else if t.dynamic() { "dynamic" } else { "static" });
		if t.dynamic() { m.nontrivial() }
		Ok(())
	}
	with!(c.ty, X => go::<X>(c, m))
}
fn malformed(c: &Case, m: &mut Meter) -> Res {
	fn go<X: T>(c: &Case, m: &mut Meter) -> Res {
		let t = X::ty();
		let d = edited(t.args(&c.v), &c.edits);
		let want = t.unargs(&d);
		let got = decoded::<X>(&d)?;
		eq!("decoding", got, want);
		// the arguments of a call are read one after the other behind the selector
		let call = [c.sel.to_be_bytes().to_vec(), d.clone()].concat();
		let read = no_panic(|| { let mut r = solidity::codec::Reader::new_skip_selector(&call).ok()?; r.read::<(X,)>().ok().map(|x| x.0.back()) }).map_err(|e| format!("panic: {e}"))?;
		eq!("reading behind the selector", read, Ty::Tup(vec![t.clone()]).take(&d, &mut 0).map(|v| v.l()[0].clone()));
		// a refusal is a revert with a reason anyone can decode
		if let Err(e) = solidity::decode_arguments::<X>(&d) { revert_is_readable(e)?; m.label("refused"); m.nontrivial() } else { m.label("still well formed") }
		Ok(())
	}
	with!(c.ty, X => go::<X>(c, m))
}
fn revert_is_readable(e: pu::Revert) -> Res {
	let text = e.to_string();
	match fp_evm::PrecompileFailure::from(e) {
		fp_evm::PrecompileFailure::Revert { output, .. } => {
			ensure_that!(output.starts_with(&[0x08, 0xc3, 0x79, 0xa0]), "selector of a revert");
			eq!("reason of a revert", Ty::Str(u32::MAX, true).unargs(&output[4..]), Some(V::B(text.into_bytes())));
			Ok(())
		}
		x => Err(format!("not a revert: {x:?}")),
	}
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw { ty: u8, d: Vec<u8> }
fn raw(c: &Raw, m: &mut Meter) -> Res {
	with!(c.ty, X => {
		let want = X::ty().unargs(&c.d);
		eq!("decoding", decoded::<X>(&c.d)?, want.clone());
		eq!("selector", solidity::codec::selector(&c.d), c.d.get(..4).map(|s| u32::from_be_bytes(s.try_into().unwrap())));
		eq!("short call data", solidity::codec::Reader::new_skip_selector(&c.d).is_ok(), c.d.len() >= 4);
		if want.is_some() { m.nontrivial(); m.label("accepted") }
		Ok(())
	})
}
fn raws() -> BoxedStrategy<Raw> {
	let w = prop_oneof![6 => odd(), 1 => Just([1, 0, 0, 0]), 1 => Just([2, 0, 0, 0])];
	(0..TYPES, proptest::collection::vec(w, 0..14), proptest::collection::vec(any::<u8>(), 0..33)).prop_map(|(ty, w, t)| Raw { ty, d: [w.into_iter().flat_map(|w| word(W(w))).collect(), t].concat() }).boxed()
}

// ---- the runtime's own reader and writer
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flat { items: Vec<(u8, V)>, sel: Option<u32>, edits: Vec<Edit>, skip: u8 }
fn kind(k: u8) -> Ty { match k { 0 => Ty::U(256), 1 => Ty::H, 2 => Ty::Addr, 3 => Ty::Bool, 4 => Ty::Str(u32::MAX, false), 5 => Ty::U(8), 6 => Ty::U(16), 7 => Ty::U(32), 8 => Ty::U(64), _ => Ty::U(128) } }
fn flats(edits: usize) -> BoxedStrategy<Flat> {
	let item = (0u8..10).prop_flat_map(|k| kind(k).gen().prop_map(move |v| (k, v)));
	(proptest::collection::vec(item, 0..6), proptest::option::of(any::<u32>()), proptest::collection::vec(edit(), 0..=edits), 0u8..8).prop_map(|(items, sel, edits, skip)| Flat { items, sel, edits, skip }).boxed()
}
fn flat(c: &Flat, m: &mut Meter) -> Res {
	use rt::handle::{EvmDataReader, EvmDataWriter};
	let tys: Vec<Ty> = c.items.iter().map(|(k, _)| kind(*k)).collect();
	let mut w = match c.sel { Some(s) => EvmDataWriter::new_with_selector(s), None => EvmDataWriter::new() };
	for (k, v) in &c.items {
		w = match k { 0 => w.write(W::mk(v)), 1 => w.write(H256::mk(v)), 2 => w.write(rt::Address(pu::Address::mk(v).0)), 3 => w.write(bool::mk(v)), 4 => w.write(rt::Bytes(v.b())), 5 => w.write(u8::mk(v)), 6 => w.write(u16::mk(v)), 7 => w.write(u32::mk(v)), 8 => w.write(u64::mk(v)), _ => w.write(u128::mk(v)) };
	}
	let args = seq(&tys.iter().zip(c.items.iter().map(|i| &i.1)).collect::<Vec<_>>());
	let front = c.sel.map(|s| s.to_be_bytes().to_vec()).unwrap_or_default();
	eq!("written", w.build(), [front.clone(), args.clone()].concat());
	let d = edited(args, &c.edits);
	let input = [vec![1, 2, 3, 4], d.clone()].concat();
	let mut r = EvmDataReader::new_skip_selector(&input).map_err(|_| "no selector skipped".to_string())?;
	let mut at = 0;
	for (i, (k, _)) in c.items.iter().enumerate() {
		for args in [0usize, 1, 2, c.items.len(), 1000] { eq!("number of arguments", r.expect_arguments(args).is_ok(), d.len() >= at + args * 32); }
		let t = &tys[i];
		let want = t.take(&d, &mut at);
		let got = no_panic(|| match k { 0 => r.read::<W>().ok().map(T::back), 1 => r.read::<H256>().ok().map(T::back), 2 => r.read::<rt::Address>().ok().map(|a| n(W::from_big_endian(&a.0 .0))), 3 => r.read::<bool>().ok().map(T::back), 4 => r.read::<rt::Bytes>().ok().map(|b| V::B(b.0)), 5 => r.read::<u8>().ok().map(T::back), 6 => r.read::<u16>().ok().map(T::back), 7 => r.read::<u32>().ok().map(T::back), 8 => r.read::<u64>().ok().map(T::back), _ => r.read::<u128>().ok().map(T::back) }).map_err(|e| format!("panic: {e}"))?;
		eq!("read", got.clone(), want);
		if got.is_none() { m.label("refused"); return Ok(()) }
	}
	if at <= d.len() {
		let k = (c.skip as usize).min(d.len() - at);
		eq!("raw bytes", r.read_raw_bytes(k).ok().map(|b| b.to_vec()), Some(d[at..at + k].to_vec()));
		eq!("the rest", r.read_till_end().ok().map(|b| b.to_vec()), Some(d[at + k..].to_vec()));
	}
	if c.items.iter().any(|i| i.0 == 4) { m.nontrivial() }
	m.label(if c.edits.is_empty() { "well formed" } else { "changed" });
	Ok(())
}

// ---- costs, modifiers, output helpers
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aux { topics: usize, len: usize, gas: u64, value: [u64; 4], fixed: bool, cfg: [u64; 3], flags: [bool; 2], xs: Vec<[u64; 4]>, text: Vec<u8>, db: (u64, u64), adr: [u8; 20] }
fn aux() -> BoxedStrategy<Aux> {
	let big = || prop_oneof![3 => 0usize..300, 1 => Just(usize::MAX), 1 => Just(usize::MAX / 8), 1 => Just(usize::MAX / 375), 1 => any::<usize>()];
	let val = prop_oneof![2 => Just([0u64; 4]), 1 => any::<u64>().prop_map(|x| [x, 0, 0, 0]), 1 => Just([0, 0, 0, 1]), 1 => any::<[u64; 4]>()];
	((big(), big(), prop_oneof![0u64..5000, any::<u64>()], val, any::<bool>(), proptest::array::uniform3(0u64..10_000)), (any::<[bool; 2]>(), proptest::collection::vec(any::<[u64; 4]>(), 0..4), proptest::collection::vec(any::<u8>(), 0..80), (0u64..1 << 40, 0u64..1 << 40), any::<[u8; 20]>())).prop_map(|((topics, len, gas, value, fixed, cfg), (flags, xs, text, db, adr))| Aux { topics, len, gas, value, fixed, cfg, flags, xs, text, db, adr }).boxed()
}
fn rest(c: &Aux, m: &mut Meter) -> Res {
	use hydradx_evm::{Handle, Runtime};
	let cost = 375u128 + 375 * c.topics as u128 + 8 * c.len as u128;
	let part = |x: u128| x <= u64::MAX as u128;
	let want = (part(375 * c.topics as u128) && part(8 * c.len as u128) && part(cost)).then_some(cost as u64);
	eq!("log cost", precompile_utils::evm::costs::log_costs(c.topics, c.len).ok(), want);
	eq!("log cost (runtime)", rt::costs::log_costs(c.topics, c.len).ok(), want);
	m.label(if want.is_some() { "cost" } else { "cost beyond range" });
	let value = W(c.value);
	let cfg = evm::Config { gas_call: c.cfg[0], gas_account_access_cold: c.cfg[1], gas_storage_read_warm: c.cfg[2], increase_state_access_gas: c.flags[0], empty_considered_exists: c.flags[1], ..evm::Config::shanghai() };
	let access = if c.flags[0] { c.cfg[1] } else { c.cfg[0] };
	let pays = !value.is_zero();
	eq!("cost of a call", precompile_utils::evm::costs::call_cost(value, &cfg), access + if pays { 9000 } else { 0 } + if c.flags[1] || pays { 25_000 } else { 0 });
	// through a handle: charged, and refused when there is not enough
	let handle = || { let mut h = Handle::new(H160(c.adr), H160(c.adr), c.text.clone()); h.ctx.apparent_value = value; h.fixed = c.fixed; h.gas = c.gas; h };
	let mut h = handle();
	let ok = want.map_or(false, |w| w <= c.gas);
	{
		use rt::handle::PrecompileHandleExt as Rt;
		eq!("recording a log", Rt::record_log_costs_manual(&mut h, c.topics, c.len).is_ok(), ok);
		eq!("gas left", h.gas, if ok { c.gas - want.unwrap() } else { c.gas });
		let mut h = handle();
		eq!("recording a log", pu::PrecompileHandleExt::record_log_costs_manual(&mut h, c.topics, c.len).is_ok(), ok);
		eq!("gas left", h.gas, if ok { c.gas - want.unwrap() } else { c.gas });
		let topics: Vec<H256> = c.xs.iter().map(|x| H256::mk(&V::N(*x))).collect();
		use pu::LogExt;
		let a = H160(c.adr);
		let log = match topics[..] { [] => pu::log0(a, c.text.clone()), [x] => pu::log1(a, x, c.text.clone()), [x, y] => pu::log2(a, x, y, c.text.clone()), [x, y, z] => pu::log3(a, x, y, z, c.text.clone()), _ => unreachable!() };
		eq!("log", log.clone(), fp_evm::Log { address: a, topics: topics.clone(), data: c.text.clone() });
		let one = 375 + 375 * topics.len() as u64 + 8 * c.text.len() as u64;
		eq!("cost of a log", log.compute_cost().ok(), Some(one));
		let mut h = handle();
		eq!("recording two logs", pu::PrecompileHandleExt::record_log_costs(&mut h, &[&log, &log]).is_ok(), 2 * one <= c.gas);
		let mut h2 = handle();
		eq!("recording two logs", Rt::record_log_costs(&mut h2, &[&log, &log]).is_ok(), 2 * one <= c.gas);
		if 2 * one <= c.gas { eq!("gas left", (h.gas, h2.gas), (c.gas - 2 * one, c.gas - 2 * one)); }
		let four = pu::log4(a, H256::zero(), H256::repeat_byte(1), H256::repeat_byte(2), H256::repeat_byte(3), c.text.clone());
		eq!("log of four topics", four, fp_evm::Log { address: a, topics: (0..4).map(H256::repeat_byte).collect(), data: c.text.clone() });
		must!(log.clone().record(&mut h).is_ok(), "logging failed");
		eq!("logged", h.logs, vec![log]);
	}
	// what a function accepts
	let h = handle();
	{
		use precompile_utils::solidity::modifier::FunctionModifier as M;
		use rt::handle::{FunctionModifier as R, PrecompileHandleExt as Rt};
		for (a, b, want) in [(M::View, R::View, !pays), (M::NonPayable, R::NonPayable, !pays && !c.fixed), (M::Payable, R::Payable, !c.fixed)] {
			eq!("modifier", pu::PrecompileHandleExt::check_function_modifier(&h, a).is_ok(), want);
			eq!("modifier (runtime)", Rt::check_function_modifier(&h, b).is_ok(), want);
		}
		eq!("selector", pu::PrecompileHandleExt::read_u32_selector(&h).ok(), c.text.get(..4).map(|s| u32::from_be_bytes(s.try_into().unwrap())));
		eq!("input", Rt::read_input(&h).ok().map(|mut r| r.read_till_end().unwrap().to_vec()), c.text.get(4..).map(|s| s.to_vec()));
		eq!("input", pu::PrecompileHandleExt::read_after_selector(&h).ok().map(|mut r| r.read_till_end().unwrap().to_vec()), c.text.get(4..).map(|s| s.to_vec()));
	}
	// database reads and writes
	hydradx_evm::world(|w| w.db = c.db);
	eq!("read and write", (pu::RuntimeHelper::<Runtime>::db_read_gas_cost(), pu::RuntimeHelper::<Runtime>::db_write_gas_cost()), (c.db.0 / 25_000, c.db.1 / 25_000));
	eq!("read and write (runtime)", (rt::substrate::RuntimeHelper::<Runtime>::db_read_gas_cost(), rt::substrate::RuntimeHelper::<Runtime>::db_write_gas_cost()), (c.db.0 / 25_000, c.db.1 / 25_000));
	let mut h = handle();
	let ok = c.db.0 / 25_000 <= c.gas;
	eq!("recording a read", pu::PrecompileHandleExt::record_db_read::<Runtime>(&mut h, c.text.len()).is_ok(), ok);
	eq!("recorded", (c.gas - h.gas, h.external), if ok { (c.db.0 / 25_000, vec![(None, Some(c.text.len() as u64), None)]) } else { (0, vec![]) });
	// outputs
	let u = |x: u128| Ty::U(256).args(&n(x.into()));
	eq!("bool", rt::Output::encode_bool(c.fixed), u(c.fixed as u128));
	eq!("uint", rt::Output::encode_uint(c.gas), u(c.gas as u128));
	let ws: Vec<W> = c.xs.iter().map(|x| W(*x)).collect();
	let l = V::L(ws.iter().map(|w| n(*w)).collect());
	eq!("array", rt::Output::encode_uint_array(ws.clone()), Ty::Arr(Box::new(Ty::U(256)), 9).args(&l));
	eq!("tuple", rt::Output::encode_uint_tuple(ws.clone()), Ty::Tup(vec![Ty::U(256); ws.len()]).args(&l));
	eq!("bytes", rt::Output::encode_bytes(&c.text), Ty::Str(99, false).args(&V::B(c.text.clone())));
	let mut padded = c.text.clone();
	padded.resize((padded.len() + 31) / 32 * 32, 0);
	eq!("fixed bytes", rt::Output::encode_fixed_bytes(&c.text), padded);
	let a = W::from_big_endian(&c.adr);
	eq!("address", rt::Output::encode_address(H160(c.adr)), word(a));
	eq!("addresses", rt::Output::encode_address_array(vec![H160(c.adr); ws.len()]), Ty::Arr(Box::new(Ty::Addr), 9).args(&V::L(vec![n(a); ws.len()])));
	eq!("addresses", rt::Output::encode_address_tuple(vec![H160(c.adr); ws.len()]), Ty::Tup(vec![Ty::Addr; ws.len()]).args(&V::L(vec![n(a); ws.len()])));
	// reverts and results
	let text = String::from_utf8_lossy(&c.text).to_string();
	revert_is_readable(pu::Revert::new(pu::RevertReason::custom(text.clone())))?;
	eq!("as bytes", solidity::revert::revert_as_bytes(text.clone()), [vec![0x08, 0xc3, 0x79, 0xa0], Ty::Str(999, true).args(&V::B(text.clone().into_bytes()))].concat());
	eq!("revert", rt::revert(&c.text), fp_evm::PrecompileFailure::Revert { exit_status: fp_evm::ExitRevert::Reverted, output: c.text.clone() });
	eq!("succeed", rt::succeed(&c.text), fp_evm::PrecompileOutput { exit_status: fp_evm::ExitSucceed::Returned, output: c.text.clone() });
	eq!("error", rt::error(text.clone()), fp_evm::PrecompileFailure::Error { exit_status: fp_evm::ExitError::Other(text.into()) });
	if want.is_some() && c.gas > 400 { m.nontrivial() }
	Ok(())
}

fn main() {
	let id = std::env::args().nth(1).unwrap_or("C54".into());
	let mut c = Ctx::new(&id);
	c.assume("two dozen argument types stand for all types built from the codec's parts");
	c.check("encoding", "a value of one of 24 types, encoded as arguments, return value, event and call data, and read back; non-trivial: the type has a dynamic part", 40_000, 1_000_000, || case(0), exact);
	c.check("malformed", "an encoding with some words, bytes or its length changed: read exactly as the ABI says or refused with a readable reason; non-trivial: refused", 100_000, 3_000_000, || case(4), malformed);
	c.check("noise", "words that look like offsets and lengths, and loose bytes; non-trivial: accepted", 100_000, 3_000_000, raws, raw);
	c.check("runtime codec", "the runtime's own writer and reader on sequences of values, unchanged or changed; non-trivial: a dynamic value among them", 60_000, 2_000_000, || prop_oneof![flats(0), flats(4)], flat);
	c.check("costs and results", "costs of logs, calls and database access, function modifiers, outputs and reverts; non-trivial: a cost in range with gas to pay for", 30_000, 600_000, aux, rest);
	std::process::exit(c.finish());
}
