//! Reference logarithm/exponential in 1024-bit fixed point (F fractional bits).
use hydra_dx_math::lbp::*;
use hydra_dx_math::transcendental::*;
use fixed::types::{U1F127, U32F96};
use num_traits::One;
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;

const F: usize = 300;
fn one() -> U1024 { b(1) << F }
fn mul(x: U1024, y: U1024) -> U1024 { (x * y) >> F }
fn div(x: U1024, y: U1024) -> U1024 { (x << F) / y }
/// x given with 96 fractional bits
fn up(x: u128) -> U1024 { b(x) << (F - 96) }

/// ln(x) for x >= 1
fn ln_ge1(mut x: U1024) -> U1024 {
	let mut k = 0u32;
	while x >= one() << 1 { x = x >> 1; k += 1; }
	let at = |x: U1024| { // 2 atanh((x-1)/(x+1))
		let z = div(x - one(), x + one());
		let z2 = mul(z, z);
		let (mut t, mut s, mut i) = (z, z, 3u128);
		while !t.is_zero() { t = mul(t, z2); s = s + t / b(i); i += 2; }
		s << 1
	};
	// shrink towards 1 by square roots is unnecessary: z <= 1/3
	at(x) + at(one() << 1) * b(k as u128)
}
/// e^x
fn exp_pos(x: U1024) -> U1024 {
	let h = 8;
	let y = x >> h;
	let (mut t, mut s, mut i) = (one(), one(), 1u128);
	loop { t = mul(t, y) / b(i); if t.is_zero() { break } s = s + t; i += 1; }
	for _ in 0..h { s = mul(s, s); }
	s
}
/// x^y, both with 96 fractional bits, x > 0; None if above 2^60
pub fn ref_pow(x: u128, y: u128) -> Option<U1024> {
	let xu = up(x);
	let (l, neg) = if xu >= one() { (ln_ge1(xu), false) } else { (ln_ge1(div(one(), xu)), true) };
	let e = mul(l, up(y));
	if !neg && e > one() * b(42) { return None }
	if e > one() * b(200) { return Some(b(0)) }
	let r = exp_pos(e);
	Some(if neg { div(one(), r) } else { r })
}
fn fx() -> impl Strategy<Value = u128> { // U32F96 bits of interesting operands
	let o = 1u128 << 96;
	prop_oneof![4 => mag(1, o), 4 => mag(o, o << 12), 3 => mag(1, o >> 1).prop_map(move |d| o - d), 3 => mag(1, o >> 1).prop_map(move |d| o + d), 1 => Just(o), 1 => mag(1, u128::MAX)]
}
fn ex() -> impl Strategy<Value = u128> {
	let o = 1u128 << 96;
	prop_oneof![5 => mag(1, o << 5), 2 => mag(1, o >> 1).prop_map(move |d| o - d), 1 => Just(o), 1 => Just(o << 1), 2 => (1u128..=100_000_000, 1u128..=100_000_000).prop_map(|(a, c)| (b(a) * (b(1) << 96) / b(c)).low_u128())]
}
fn lg2(x: U1024) -> i32 { if x.is_zero() { -400 } else { x.bits() as i32 - 1 - F as i32 } }

pub fn c09(c: &mut Ctx) {
	c.assume("accuracy is required where the value and its intermediate results are representable in 32.96 fixed point");
	c.check("pow", "fixed-point power against a 300-bit reference; non-trivial: neither operand nor exponent trivial", 24_000, 600_000, || (fx(), ex()),
		|(x, y), m| {
			let o = 1u128 << 96;
			let r: Result<U32F96, ()> = no_panic(|| pow::<U32F96, U32F96>(U32F96::from_bits(*x), U32F96::from_bits(*y)))?;
			let Some(e) = ref_pow(*x, *y) else { ensure_that!(r.is_err(), "overflow not reported"); return Ok(()) };
			match r {
				Err(_) => {
					// refused only when x^y or x^-y (the intermediate) is near the top of the format; log2 >= 31 - terms
					m.label("refused");
					let l = lg2(e);
					ensure_that!(l >= 25 || l <= -26 || *x <= 1 << 64, "power refused: 2^{l}");
				}
				Ok(v) => {
					if *x != o && *y != o { m.nontrivial(); }
					let v = up(v.to_bits());
					let err = diff(v, e);
					// relative error of the exponent ~ |ln r| * 2^-86 ; absolute floor 2^-90
					let tol = (e >> TOLR) + (one() >> TOLA) + (mul(e, up(*y)) >> TOLY);
					if std::env::var("VERIF_MEASURE").is_ok() && err > tol { println!("err 2^{} val 2^{} y 2^{} x={x} y={y}", lg2(err), lg2(e), lg2(up(*y))); return Ok(()) }
					ensure_that!(err <= tol, "pow deviates: got {v} want {e} (difference 2^{}, value 2^{})", lg2(err), lg2(e));
					if *x == o { ensure_eq!(v, one(), "one to any power"); }
				}
			}
			Ok(())
		});
	c.check("ln", "natural logarithm against the reference; non-trivial: operand is not one", 30_000, 600_000, fx,
		|x, m| {
			let o = 1u128 << 96;
			// the reciprocal of tiny operands is not representable
			let Ok((l, neg)) = no_panic(|| ln::<U32F96, U32F96>(U32F96::from_bits((*x).max(1 << 66))))? else { return Err("refused".into()) };
			let x = (*x).max(1 << 66);
			if x != o { m.nontrivial(); }
			let e = if x >= o { ln_ge1(up(x)) } else { ln_ge1(div(one(), up(x))) };
			ensure_eq!(neg, x < o, "sign of the logarithm");
			let err = diff(up(l.to_bits()), e);
			let tol = (e >> 90) + (one() >> 84) + if x < o { div(one(), up(x)) >> 96 } else { b(0) };
			ensure_that!(err <= tol, "ln({x}) off by 2^{}", lg2(err));
			Ok(())
		});
	c.check("exp", "exponential against the reference; non-trivial: always", 30_000, 600_000, || (mag(0, 20u128 << 96), any::<bool>()),
		|(x, neg), m| {
			m.nontrivial();
			let r = no_panic(|| exp::<U32F96, U32F96>(U32F96::from_bits(*x), *neg))?;
			let e = exp_pos(up(*x));
			match r {
				Err(_) => ensure_that!(lg2(e) >= 26, "exp refused at 2^{}", lg2(e)),
				Ok(v) => {
					let v = up(v.to_bits());
					let e2 = if *neg { div(one(), e) } else { e };
					let err = diff(v, e2);
					let tol = (e2 >> 82) + (one() >> 94) + (mul(e2, e) >> 60 >> 30);
					ensure_that!(err <= tol, "exp off by 2^{} of 2^{}", lg2(err), lg2(e2));
				}
			}
			Ok(())
		});
	c.check("powi", "integer powers against exact big-integer powers; non-trivial: exponent at least 2", 150_000, 3_000_000, || (fx(), prop_oneof![4 => 0u32..=12, 1 => 0u32..=300]),
		|(x, n), m| {
			let r = no_panic(|| powi::<U32F96, U32F96>(U32F96::from_bits(*x), *n))?;
			let mut e = one();
			for _ in 0..*n { e = mul(e, up(*x)); if lg2(e) > 60 { break } }
			if *n >= 2 { m.nontrivial(); }
			match r {
				Err(_) => ensure_that!(lg2(e) >= 32, "powi refused"),
				Ok(v) => {
					let v = up(v.to_bits());
					ensure_that!(lg2(e) < 32, "powi overflow not reported");
					// truncation of up to one ulp per multiplication
					ensure_that!(v <= e + b(1 << 20) && e - v.min(e) <= ((one() >> 96) + (div(e, up(*x)) >> 96)) * b(*n as u128 + 1) , "powi {x}^{n}: {v} vs {e}");
				}
			}
			Ok(())
		});
	c.check("powi_high_precision", "powers of complements of smoothing factors against exact powers; non-trivial: exponent at least 2", 40_000, 800_000,
		|| (prop_oneof![3 => mag(0, 1 << 127), 4 => mag(0, 1 << 126).prop_map(|d| (1u128 << 127) - d)], prop_oneof![4 => 0u32..=20, 3 => 0u32..=100_000, 2 => any::<u32>()]),
		|(x, n), m| {
			if *x == 0 && *n == 0 { return Ok(()) } // 0^0 is a convention
			let v = no_panic(|| saturating_powi_high_precision::<U1F127, U1F127>(U1F127::from_bits(*x), *n))?;
			if *n >= 2 { m.nontrivial(); }
			let v = b(v.to_bits()) << (F - 127);
			// exact power by squaring with 300 bits
			let (mut e, mut p, mut k) = (one(), b(*x) << (F - 127), *n);
			while k > 0 { if k & 1 == 1 { e = mul(e, p); } p = mul(p, p); k >>= 1; }
			let err = diff(v, e);
			// powers of x below one amplify each truncation at most n times
			let tol = (one() >> 127) * b(4 * (*n as u128) + 64);
			ensure_that!(err <= tol, "{x}^{n} off by 2^{}", lg2(err));
			ensure_that!(v <= one(), "power of a fraction exceeds one");
			// high precision near one: far better than the naive bound
			let gap = b((1u128 << 127) - (*x).min(1 << 127)) * b(*n as u128);
			if gap * b(20) < (b(1) << 127) && *n >= 2 { m.label("near_one"); ensure_that!(err <= (one() >> 127) * b(80), "imprecise near one: off by 2^{}", lg2(err)); }
			Ok(())
		});
	let _ = U32F96::one();
}
const TOLR: usize = 84;
const TOLA: usize = 88;
const TOLY: usize = 84;

const WMAX: u32 = 100_000_000;
fn weight() -> impl Strategy<Value = u32> { prop_oneof![5 => 500_000u32..=WMAX, 1 => Just(50_000_000u32), 2 => 1u32..=WMAX] }

pub fn c08(c: &mut Ctx) {
	c.assume("weights 1..=100_000_000, reserves 1000..2^110; trades whose power is not representable may be refused");
	c.check("weights", "weight interpolation at every position of a sale; non-trivial: strictly inside the interval", 400_000, 8_000_000,
		|| (any::<u32>(), prop_oneof![3 => 1u32..=1_000_000, 1 => any::<u32>()], any::<u32>(), any::<u32>(), any::<u32>(), 0u8..5, any::<bool>()),
		|(s, len, w0, w1, p, k, small), m| {
			let (w0, w1) = if *small { (w0 % WMAX, w1 % WMAX) } else { (*w0, *w1) };
			let s = *s / 2; let len = *len / 2 + 1;
			let e = s + len;
			let at = match k { 0 => s, 1 => e, 2 => s.wrapping_sub(*p % 1000 + 1), 3 => e.saturating_add(*p % 1000 + 1), _ => s + p % len };
			let r = calculate_linear_weights(s, e, w0, w1, at);
			if at < s || at > e { ensure_that!(r.is_err(), "weight outside of the sale: {r:?}"); return Ok(()) }
			if at > s && at < e { m.nontrivial(); }
			let v = r.map_err(|e| format!("refused {e:?}"))?;
			let n = b(w0 as u128) * b((e - at) as u128) + b(w1 as u128) * b((at - s) as u128);
			ensure_eq!(b(v as u128), n / b(len as u128), "weight");
			ensure_that!(v >= w0.min(w1) && v <= w0.max(w1), "weight out of range");
			if at < e {
				let w = calculate_linear_weights(s, e, w0, w1, at + 1).map_err(|e| format!("{e:?}"))?;
				ensure_that!(if w1 >= w0 { w >= v } else { w <= v }, "weights not monotone");
			}
			ensure_that!(calculate_linear_weights(s, s, w0, w1, s).is_err(), "empty interval accepted");
			Ok(())
		});
	c.check("sell", "sale against the exact weighted-product curve; non-trivial: positive output", 16_000, 400_000,
		|| (mag(1_000, 1 << 110), mag(1_000, 1 << 110), weight(), weight(), prop_oneof![3 => 1u32..=500_000, 1 => 1u32..=10_000_000], mag(1, 1000)),
		|(ri, ro, wi, wo, ppm, a0), m| {
			let a = (b(*ri) * b(*ppm as u128) / b(1_000_000)).low_u128().max(*a0);
			let r = no_panic(|| calculate_out_given_in(*ri, *ro, *wi, *wo, a))?;
			// exact: ro * (1 - (ri/(ri+a))^(wi/wo))
			let x = (b(*ri) << F) / (b(*ri) + b(a));
			let y = (b(*wi as u128) << F) / b(*wo as u128);
			let l = ln_ge1(div(one(), x));
			let ee = mul(l, y);
			if ee > one() * b(17) { return Ok(()) } // power not representable
			let p = div(one(), exp_pos(ee));
			let exact = (b(*ro) * (one() - p)) >> F;
			let out = match r { Ok(v) => b(v), Err(e) => { ensure_that!(exact <= b(1) + (b(*ro) >> 60), "sale refused {e:?}, exact {exact}"); return Ok(()) } };
			if !out.is_zero() { m.nontrivial(); }
			ensure_that!(out <= b(*ro), "drained");
			let tol = (b(*ro) >> TOLB) + (b(*ro) * (y + one()) >> (F + 85)) + b(2);
			ensure_that!(out <= exact + tol, "seller receives {out}, the curve allows {exact}");
			ensure_that!(out + tol + b(1) >= exact, "seller receives {out}, the curve gives {exact}");
			ensure_eq!(calculate_out_given_in(*ri, *ro, *wi, *wo, 0), Ok(0), "zero amount");
			Ok(())
		});
	c.check("buy", "purchase against the exact weighted-product curve; non-trivial: granted", 16_000, 400_000,
		|| (mag(1_000, 1 << 110), mag(1_000, 1 << 110), weight(), weight(), prop_oneof![3 => 1u32..=500_000, 1 => 1u32..=950_000], mag(1, 1000)),
		|(ri, ro, wi, wo, ppm, a0), m| {
			let a = (b(*ro) * b(*ppm as u128) / b(1_000_000)).low_u128().max(*a0).min(ro - 1);
			let r = no_panic(|| calculate_in_given_out(*ri, *ro, *wi, *wo, a))?;
			// exact: ri * ((ro/(ro-a))^(wo/wi) - 1)
			let x = (b(*ro) << F) / (b(*ro) - b(a));
			let y = (b(*wo as u128) << F) / b(*wi as u128);
			let ee = mul(ln_ge1(x), y);
			if ee > one() * b(17) || lg2(x) > 30 { return Ok(()) }
			let p = exp_pos(ee);
			let exact = (b(*ri) * (p - one())) >> F;
			let cost = match r { Ok(v) => b(v), Err(e) => { ensure_that!(exact > b(u128::MAX >> 1), "purchase refused {e:?}, exact {exact}"); return Ok(()) } };
			m.nontrivial();
			let tol = (mul(b(*ri), p) >> TOLB) + (mul(mul(b(*ri), p), y + one()) >> 85) + b(3);
			ensure_that!(cost + tol >= exact, "buyer pays {cost}, the curve requires {exact}");
			ensure_that!(cost <= exact + tol + b(2), "buyer pays {cost}, the curve requires only {exact}");
			// whatever is bought for `cost` can be had by selling it (up to tolerance)
			ensure_that!(calculate_in_given_out(*ri, *ro, *wi, *wo, ro + 1).is_err(), "bought above the reserve");
			Ok(())
		});
	c.check("round_trip", "sell and sell back at the same weights: no profit beyond rounding tolerance; non-trivial: output", 60_000, 1_000_000,
		|| (mag(1_000, 1 << 100), mag(1_000, 1 << 100), weight(), weight(), 1u32..=500_000),
		|(ri, ro, wi, wo, ppm), m| {
			let a = (b(*ri) * b(*ppm as u128) / b(1_000_000)).low_u128().max(1);
			let Ok(out) = no_panic(|| calculate_out_given_in(*ri, *ro, *wi, *wo, a))? else { return Ok(()) };
			if out == 0 || out >= *ro { return Ok(()) }
			let Ok(back) = no_panic(|| calculate_out_given_in(ro - out, ri + a, *wo, *wi, out))? else { return Ok(()) };
			m.nontrivial();
			// the error of `out` (2^-80 of ro) is worth at most that part times the price ratio
			let tol = (b(*ri) >> 60) + b(2) + if *wi < 1_000 || *wo < 1_000 { b(*ri) >> 40 } else { b(0) };
			ensure_that!(b(back) <= b(a) + tol, "round trip profits {a} -> {out} -> {back}");
			Ok(())
		});
	c.check("spot_price", "weighted spot prices, with fee on either side; non-trivial: positive", 300_000, 5_000_000,
		|| (mag(0, 1 << 126), mag(0, 1 << 126), any::<u32>(), any::<u32>(), any_u128(), prop::option::of((0u32..=1200, 1u32..=1000)), any::<bool>()),
		|(ri, ro, wi, wo, a, fee, out_is_fee), m| {
			let r = calculate_spot_price(*ri, *ro, *wi, *wo, *a);
			if *ri == 0 { ensure_that!(r.is_err(), "zero reserve"); return Ok(()) }
			if *a == 0 || *ro == 0 { ensure_eq!(r, Ok(0), "zero"); return Ok(()) }
			let big_n = b(*a) * b(*ro) * b(*wi as u128);
			if *wo == 0 { ensure_that!(r.is_err(), "zero weight"); return Ok(()) }
			if big_n.bits() > 256 { ensure_that!(r.is_err(), "overflow"); } else { ensure_eq!(r.ok(), small(big_n / (b(*ri) * b(*wo as u128))), "spot price"); }
			m.nontrivial();
			let q = calculate_spot_price_with_fee(*ri, *ro, *wi, *wo, 1, if *out_is_fee { 1 } else { 2 }, *fee);
			let (n, d) = (b(*ro) * b(*wi as u128), b(*ri) * b(*wo as u128));
			let sp = n * e18() / d;
			if n > b(u128::MAX) || d > b(u128::MAX) || sp > b(u128::MAX) { ensure_that!(q.is_err(), "overflow"); return Ok(()) }
			match fee {
				Some((fa, fb)) if *out_is_fee => {
					if fa > fb { ensure_that!(q.is_err(), "fee above one"); return Ok(()) }
					let e = n * e18() * b((fb - fa) as u128) / (d * b(*fb as u128));
					let q = b(q.map_err(|e| format!("{e:?}"))?.into_inner());
					ensure_that!(diff(q, e) <= sp / e18() + b(3), "price {q} vs {e}");
				}
				_ => { let q = b(q.map_err(|e| format!("{e:?}"))?.into_inner()); ensure_that!(diff(q, sp) <= b(1), "price {q} vs {sp}"); }
			}
			Ok(())
		});
}
const TOLB: usize = 80;
