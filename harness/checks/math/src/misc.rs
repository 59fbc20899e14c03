use hydra_dx_math::dynamic_fees::types::{FeeParams, OracleEntry};
use hydra_dx_math::dynamic_fees::*;
use hydra_dx_math::ema::*;
use hydra_dx_math::fraction;
use hydra_dx_math::omnipool::types::{AssetReserveState, BalanceUpdate, Position};
use hydra_dx_math::omnipool_subpools as sub;
use hydra_dx_math::rate_limiter as rl;
use hydra_dx_math::ratio::Ratio;
use hydra_dx_math::support::rational::*;
use hydra_dx_math::types::Fraction;
use hydra_dx_math::{liquidity_mining as lm, staking as st};
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;
use sp_arithmetic::{FixedU128, Perbill, Permill};

const ONE: u128 = 1 << 127; // Fraction::ONE
fn frac_bits() -> impl Strategy<Value = u128> { prop_oneof![1 => Just(0u128), 1 => Just(ONE), 5 => mag(1, ONE), 4 => (1u64..=1_000_000).prop_map(|p| fraction::frac(2, p as u128 + 1).to_bits()), 1 => mag(1, ONE >> 1).prop_map(|d| ONE - d)] }
fn price() -> impl Strategy<Value = (u128, u128)> { prop_oneof![6 => (mag(1, u128::MAX), mag(1, u128::MAX)), 4 => (mag(1, 1 << 90), mag(1, 1 << 90)), 1 => (Just(0u128), mag(1, u128::MAX)), 2 => (mag(1 << 100, u128::MAX), mag(1 << 100, u128::MAX))] }
fn rational(r: Ratio) -> (U1024, U1024) { (b(r.n), b(r.d)) }

/// |x/y - n/d| <= (n/d) / 2^k + extra(n2/d2)
fn close(x: (U1024, U1024), n: U1024, d: U1024, tol_num: U1024, tol_den: U1024) -> bool {
	// |x.0*d - n*x.1| / (x.1*d) <= tol_num/tol_den
	let l = diff(x.0 * d, n * x.1);
	// compare l * tol_den <= tol_num * x.1 * d with care for width: shift both
	let r = x.1 * d;
	let (lb, rb) = (l.bits() + tol_den.bits(), r.bits() + tol_num.bits());
	if lb + 2 < rb { return true }
	if rb + 2 < lb { return false }
	let sh = lb.max(rb).saturating_sub(1000);
	((l >> (sh / 2)) * (tol_den >> (sh - sh / 2))) <= (((r >> (sh / 2)) + 1) * ((tol_num >> (sh - sh / 2)) + 1))
}

/// A 128/128-bit rational `r` approximates n/d up to 4 units of its shorter part; at the ends of the
/// representable range (one part is a single unit) the value may be clamped to the end.
fn approximates(r: (U1024, U1024), n: U1024, d: U1024) -> bool {
	let short = r.0.min(r.1).max(b(1));
	if r.0 == b(1) && r.1.bits() >= 126 { return n * r.1 <= d * b(8) }
	if r.1 == b(1) && r.0.bits() >= 126 { return n * b(8) >= d * r.0 }
	close(r, n, d, n * b(4), d * short)
}
pub fn c11(c: &mut Ctx) {
	c.assume("weights are smoothing fractions in [0,1] with 127 fractional bits; prices are 128/128-bit rationals with a non-zero denominator");
	c.check("price_average", "weighted price average against exact rational arithmetic; non-trivial: prices differ and weight strictly inside (0,1)", 300_000, 6_000_000, || (price(), price(), frac_bits(), 0u8..8, 1u64..=1000),
		|(p, i, w, k, near), m| {
			// sometimes the new price is close to the old one
			let i = if *k == 0 { (((b(p.0) * b(*near as u128 + 10_000)) / b(10_500)).low_u128(), p.1) } else if *k == 1 { *p } else { *i };
			let (prev, inc) = (Ratio::new(p.0, p.1), Ratio::new(i.0, i.1));
			let r = price_weighted_average(prev, inc, Fraction::from_bits(*w));
			ensure_that!(r.d > 0, "zero denominator");
			let ((pn, pd), (qn, qd)) = (rational(prev), rational(inc));
			// exact = (pn*qd*(ONE-w) + qn*pd*w) / (pd*qd*ONE)
			let n = pn * qd * b(ONE - *w) + qn * pd * b(*w);
			let d = pd * qd * b(ONE);
			if *w > 0 && *w < ONE && pn * qd != qn * pd && !pn.is_zero() && !qn.is_zero() { m.nontrivial(); }
			let (rn, rd) = rational(r);
			if *w == 0 || pn * qd == qn * pd { ensure_that!(rn * pd == pn * rd, "average of equal prices or zero weight moves the price: {r:?}"); return Ok(()) }
			// result precision: n and d are at most 128 bits; error at most 4 units of the shorter one
			if n.is_zero() { ensure_that!(rn <= b(2) || close((rn, rd), n, d, b(4), rd), "average {r:?} of zero"); return Ok(()) }
			let big = rn.max(rd).bits();
			let short = rn.min(rd);
			ensure_that!(if big >= 127 { approximates((rn, rd), n, d) } else { close((rn, rd), n, d, n >> 120, d) }, "average {r:?} is not the weighted mean (weight {w})");
			// within [min,max] up to that precision, and biased towards prev
			let (lo, hi) = if pn * qd <= qn * pd { ((pn, pd), (qn, qd)) } else { ((qn, qd), (pn, pd)) };
			let slack_ok = |x: (U1024, U1024), y: (U1024, U1024)| x.0 * y.1 <= y.0 * x.1 || short == b(1) || close(x, y.0, y.1, y.0 * b(4), y.1 * short.max(b(1)));
			ensure_that!(slack_ok(lo, (rn, rd)) && slack_ok((rn, rd), hi), "average {r:?} outside of its inputs");
			// (a part of one unit is the end of the representable range: directed rounding is impossible there)
			if !pn.is_zero() && short > b(1) {
				if (rn == b(u128::MAX) || rd == b(u128::MAX)) && (rn * d <= n * rd) != (qn * pd >= pn * qd) { m.known("saturated-rounding"); }
				else if qn * pd >= pn * qd { ensure_that!(rn * d <= n * rd, "rounding overshoots the exact average upwards"); }
				else if !(qn.is_zero()) { ensure_that!(rn * d >= n * rd || (big < 127 && close((rn, rd), n, d, n >> 120, d)), "rounding overshoots the exact average downwards"); }
			}
			Ok(())
		});
	c.check("balance_average", "weighted balance, volume and liquidity averages against exact arithmetic; non-trivial: values differ", 400_000, 8_000_000, || (any_u128(), any_u128(), any_u128(), any_u128(), frac_bits()),
		|(p, i, x, y, w), m| {
			let f = Fraction::from_bits(*w);
			let avg = |p: u128, i: u128| -> Result<u128, String> {
				let r = balance_weighted_average(p, i, f);
				let n = b(p) * b(ONE - *w) + b(i) * b(*w);
				ensure_that!(diff(b(r) * b(ONE), n) <= b(ONE) >> 1, "average {r} of {p},{i}");
				ensure_that!(r >= p.min(i) && r <= p.max(i), "average outside of its inputs");
				Ok(r)
			};
			if p != i && *w > 0 && *w < ONE { m.nontrivial(); }
			let (a, bb, cc, dd) = (avg(*p, *i)?, avg(*x, *y)?, avg(*i, *x)?, avg(*y, *p)?);
			ensure_eq!(volume_weighted_average((*p, *x, *i, *y), (*i, *y, *x, *p), f), (a, bb, cc, dd), "volume");
			ensure_eq!(liquidity_weighted_average((*p, *x), (*i, *y), f), (a, bb), "liquidity");
			Ok(())
		});
	c.check("iterated", "skipped blocks: iterated averages equal the average under the compounded weight, which is the exact power; non-trivial: at least 2 iterations", 60_000, 1_200_000,
		|| (price(), price(), (any_u128(), any_u128()), frac_bits(), prop_oneof![4 => 1u32..=30, 3 => 1u32..=200_000, 1 => any::<u32>()]),
		|(p, i, (x, y), w, n), m| {
			let n = (*n).max(1);
			let f = Fraction::from_bits(*w);
			if n >= 2 && *w > 0 && *w < ONE { m.nontrivial(); }
			let s = exp_smoothing(f, n);
			// reference power with 300 fractional bits
			const F: usize = 300;
			let (mut e, mut q, mut k) = (b(1) << F, b(ONE - *w) << (F - 127), n);
			while k > 0 { if k & 1 == 1 { e = (e * q) >> F; } q = (q * q) >> F; k >>= 1; }
			let want = (b(1) << F) - e;
			let got = b(s.to_bits()) << (F - 127);
			ensure_that!(diff(got, want) <= (b(1) << (F - 127)) * b(4 * n as u128 + 64), "compounded weight after {n} blocks deviates");
			ensure_that!(s.to_bits() <= ONE && s.to_bits() + 80 >= *w, "compounded weight below the single weight or above one");
			let (pp, ii) = (Ratio::new(p.0, p.1), Ratio::new(i.0, i.1));
			ensure_eq!(iterated_price_ema(n, pp, ii, f), price_weighted_average(pp, ii, s), "price");
			ensure_eq!(iterated_balance_ema(n, *x, *y, f), balance_weighted_average(*x, *y, s), "balance");
			let v = (*x, *y, *y, *x);
			let lq = (*y, *x);
			ensure_eq!(iterated_volume_ema(n, v, f), volume_weighted_average(v, (0, 0, 0, 0), s), "volume");
			ensure_eq!(iterated_liquidity_ema(n, lq, (*x, *y), f), liquidity_weighted_average(lq, (*x, *y), s), "liquidity");
			let upd = update_outdated_to_current(n, (pp, v, lq), (ii, (*x, *y)), f);
			ensure_eq!(upd, (price_weighted_average(pp, ii, s), volume_weighted_average(v, (0, 0, 0, 0), s), liquidity_weighted_average(lq, (*x, *y), s)), "whole entry");
			let new = calculate_new_by_integrating_incoming((pp, v, lq), (ii, (*y, *x, *x, *y), (*x, *y)), f);
			ensure_eq!(new, (price_weighted_average(pp, ii, f), volume_weighted_average(v, (*y, *x, *x, *y), f), liquidity_weighted_average(lq, (*x, *y), f)), "incoming");
			Ok(())
		});
	c.check("stepwise", "iterating block by block converges to the same balance as the closed form (within one unit per step); non-trivial: at least 2 steps", 30_000, 400_000, || (any_u128(), any_u128(), frac_bits(), 1u32..=60),
		|(x, y, w, n), m| {
			if *n >= 2 && x != y { m.nontrivial(); }
			let f = Fraction::from_bits(*w);
			let mut v = *x;
			for _ in 0..*n { v = balance_weighted_average(v, *y, f); }
			let c = iterated_balance_ema(*n, *x, *y, f);
			// half a unit per step (not amplified), plus the error of the compounded weight on a 128-bit difference
			let tol = *n as u128 + 2 + (x.abs_diff(*y) >> 120);
			ensure_that!(v.abs_diff(c) <= tol, "stepwise {v} vs closed form {c}");
			Ok(())
		});
	c.check("period", "smoothing factor of a period; non-trivial: period above 1", 50_000, 200_000, || any::<u64>(),
		|p, m| {
			let s = smoothing_from_period(*p).to_bits();
			let p = (*p).max(1) as u128;
			if p > 1 { m.nontrivial(); }
			ensure_that!(diff(b(s) * b(p + 1), b(2) * b(ONE)) * b(2) <= b(p + 1), "smoothing of period {p}");
			Ok(())
		});
	c.check("fractions", "fraction construction, conversion, multiplication against exact arithmetic; non-trivial: strictly between 0 and 1", 300_000, 5_000_000, || (any_u128(), any_u128(), any_u128()),
		|(x, y, z), m| {
			let (n, d) = if x <= y { (*x, (*y).max(1)) } else { (*y, *x) };
			let f = fraction::frac(n, d).to_bits();
			if n > 0 && n < d { m.nontrivial(); }
			ensure_that!(diff(b(f) * b(d), b(n) * b(ONE)) * b(2) <= b(d), "{n}/{d}");
			let fr = Fraction::from_bits(f);
			ensure_that!(diff(b(fraction::multiply_by_balance(fr, *z)) * b(ONE), b(*z) * b(f)) * b(2) <= b(ONE), "times balance");
			ensure_that!(diff(b(fraction::multiply_by_fixed(fr, FixedU128::from_inner(*z)).into_inner()) * b(ONE), b(*z) * b(f)) * b(2) <= b(ONE), "times fixed");
			let fx = fraction::to_fixed(fr).into_inner();
			ensure_that!(diff(b(fx) * b(ONE), b(f) * e18()) * b(2) <= b(ONE), "to fixed");
			let back = fraction::from_fixed(FixedU128::from_inner(fx)).to_bits();
			ensure_that!(diff(b(back) * e18(), b(fx) * b(ONE)) * b(2) <= e18(), "from fixed");
			let r = fraction::to_rational(fr);
			ensure_that!(b(r.n()) * b(ONE) == b(f) * b(r.d()), "to rational");
			Ok(())
		});
}

fn u256_any() -> impl Strategy<Value = (u128, u128)> { (prop_oneof![2 => Just(0u128), 5 => any_u128()], any_u128()) }
fn wide(x: &(u128, u128)) -> U256 { (U256::from(x.0) << 128) | U256::from(x.1) }

pub fn c12(c: &mut Ctx) {
	c.check("u256_to_u128_rational", "256-bit rationals rounded to 128-bit; non-trivial: a shift is needed", 400_000, 8_000_000, || (u256_any(), u256_any()),
		|(n, d), m| {
			let (n, d) = (wide(n), wide(d));
			if d.is_zero() { return Ok(()) }
			rational_case(m, b256(n), b256(d), |r| round_to_rational((n, d), r))?;
			rational_case(m, b256(n), b256(d), |r| round_u512_to_rational((U512::from(n), U512::from(d)), r))
		});
	c.check("u512_to_u128_rational", "512-bit rationals rounded to 128-bit; non-trivial: a shift is needed", 300_000, 6_000_000, || (u256_any(), u256_any(), u256_any(), u256_any()),
		|(n, n2, d, d2), m| {
			let (n, d) = (wide(n).full_mul(wide(n2)), wide(d).full_mul(wide(d2)));
			if d.is_zero() { return Ok(()) }
			rational_case(m, b512(n), b512(d), |r| round_u512_to_rational((n, d), r))
		});
	c.check("ratio_order", "comparison of rationals is the exact, total order; non-trivial: different denominators", 300_000, 6_000_000, || ((any_u128(), any_u128()), (any_u128(), any_u128()), 0u128..4),
		|(x, y, k), m| {
			let x = Ratio::new(x.0, x.1.max(1));
			let y = if *k == 0 { // near-equal: multiply through
				let f = (y.0 % 1_000_000).max(1);
				match (x.n.checked_mul(f), x.d.checked_mul(f)) { (Some(n), Some(d)) => Ratio::new(n.saturating_add(y.1 % 3).saturating_sub(1), d), _ => Ratio::new(y.0, y.1.max(1)) }
			} else { Ratio::new(y.0, y.1.max(1)) };
			if x.d != y.d { m.nontrivial(); }
			let e = (b(x.n) * b(y.d)).cmp(&(b(y.n) * b(x.d)));
			ensure_eq!(x.cmp(&y), e, "order of {x:?} and {y:?}");
			ensure_eq!(y.cmp(&x), e.reverse(), "antisymmetry");
			ensure_eq!(x.partial_cmp(&y), Some(e), "partial order");
			ensure_eq!(x.is_zero(), x.n == 0, "zero");
			ensure_eq!(x.is_one(), x.n == x.d, "one");
			let iv = x.inverted();
			ensure_that!(if x.n == 0 { iv == x } else { iv.n == x.d && iv.d == x.n }, "inverse");
			ensure_eq!(Ratio::new(x.n, 0).d, 1, "zero denominator replaced");
			ensure_that!(Ratio::one() == Ratio::new_unchecked(1, 1) && Ratio::one().is_one() && Ratio::zero() == Ratio::new_unchecked(0, 1) && Ratio::zero().is_zero(), "one and zero");
			ensure_that!(Ratio::from(x.n) == Ratio::new_unchecked(x.n, 1) && Ratio::from((x.n, x.d)) == x && Ratio::from((x.n, 0)).d == 1 && <(u128, u128)>::from(x) == (x.n, x.d), "conversions");
			// without denominator: above every number, among themselves by numerator, never one
			let (p, q) = (Ratio::new_unchecked(x.n, 0), Ratio::new_unchecked(y.n, 0));
			ensure_that!(p > y && y < p && p.cmp(&q) == x.n.cmp(&y.n) && !p.is_one(), "order without denominator");
			Ok(())
		});
	c.check("subpool_migration", "asset and position conversion into a sub-pool against exact arithmetic; non-trivial: all results fit", 200_000, 3_000_000,
		|| ((mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100), 0u32..=100), (mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100), 0u32..=100), mag(1, 1 << 100), (mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100))),
		|(a, p, iss, pos), m| {
			let mk = |x: &(u128, u128, u128, u32)| AssetReserveState { reserve: x.0, hub_reserve: x.1, shares: x.2, protocol_shares: (b(x.2) * b(x.3 as u128) / b(100)).low_u128() };
			let (sa, sp) = (mk(a), mk(p));
			let r = sub::recalculate_protocol_shares(sa.hub_reserve, sa.shares, sa.protocol_shares);
			ensure_eq!(r, small(b(sa.hub_reserve) * b(sa.protocol_shares) / b(sa.shares)), "protocol shares");
			let r2 = sub::recalculate_protocol_shares(sp.hub_reserve, sp.shares, sp.protocol_shares);
			if let (Some(x), Some(y)) = (r, r2) {
				let Some(s) = sub::create_subpool_initial_state(&sa, &sp) else { return Err("initial state refused".into()) };
				let h = sa.hub_reserve + sp.hub_reserve;
				ensure_eq!((s.reserve, s.hub_reserve, s.shares, s.protocol_shares), (h, h, h, x + y), "initial state");
			}
			let e_s = b(sa.hub_reserve) * b(sp.shares) / b(sp.hub_reserve);
			let e_u = b(sa.hub_reserve) * b(*iss) / b(sp.hub_reserve);
			let e_p = e_s * b(sa.protocol_shares) / b(sa.shares);
			match sub::calculate_asset_migration_details(&sa, Some(&sp), *iss) {
				None => ensure_that!([e_s, e_u, e_p].iter().any(|x| *x > b(u128::MAX)) || e_s.bits() + 100 > 250, "migration refused"),
				Some((d, Some(ch))) => {
					m.nontrivial();
					ensure_eq!((ch.delta_reserve, ch.delta_hub_reserve, ch.delta_shares, ch.delta_protocol_shares), (BalanceUpdate::Increase(e_u.low_u128()), BalanceUpdate::Increase(sa.hub_reserve), BalanceUpdate::Increase(e_s.low_u128()), BalanceUpdate::Increase(e_p.low_u128())), "migration change");
					ensure_eq!((d.shares, d.hub_reserve, d.share_tokens), (sa.shares, sa.hub_reserve, e_u.low_u128()), "migration details");
					let (n, dd) = (b(sa.hub_reserve) * b(*iss), b(sa.reserve) * b(sp.shares));
					ensure_that!(approximates((b(d.price.0), b(d.price.1)), n, dd), "migration price");
					let position = Position { amount: pos.0, shares: pos.1, price: (pos.2, pos.3) };
					let (es, ea) = (b(pos.1) * b(d.hub_reserve) / b(d.shares), b(pos.0) * b(d.share_tokens) / b(d.shares));
					let (dh, ds) = (d.price.0, d.price.1);
					match sub::convert_position(position, d) {
						None => ensure_that!(es > b(u128::MAX) || ea > b(u128::MAX), "position refused"),
						Some(q) => {
							ensure_eq!((b(q.shares), b(q.amount)), (es, ea), "position");
							let (n, dd) = (b(pos.2) * b(ds), b(pos.3) * b(dh));
							if !dd.is_zero() {
								ensure_that!(approximates((b(q.price.0), b(q.price.1)), n, dd), "position price");
							}
						}
					}
				}
				Some((_, None)) => return Err("no state change".into()),
			}
			let Some((d, None)) = sub::calculate_asset_migration_details(&sa, None, *iss) else { return Err("creation refused".into()) };
			ensure_eq!((d.shares, d.hub_reserve, d.share_tokens, d.price), (sa.shares, sa.hub_reserve, sa.hub_reserve, (sa.hub_reserve, sa.reserve)), "creation details");
			Ok(())
		});
}
fn rational_case(m: &mut Meter, n: U1024, d: U1024, f: impl Fn(Rounding) -> (u128, u128)) -> Res {
	let shift = n.bits().max(d.bits()).saturating_sub(128);
	if shift > 0 { m.nontrivial(); }
	for r in [Rounding::Nearest, Rounding::Down, Rounding::Up] {
		let (rn, rd) = f(r);
		ensure_that!(rd > 0, "zero denominator");
		if shift == 0 { ensure_that!(b(rn) == n && b(rd) == d, "{r:?}: exact value changed"); continue }
		ensure_that!(n.is_zero() == (rn == 0) || r == Rounding::Up, "{r:?}: zero numerator");
		// full precision is used
		ensure_that!(b(rn.max(rd)).bits() >= 128, "{r:?}: precision wasted {rn}/{rd}");
		let (l, h) = (b(rn) * d, n * b(rd));
		// a part below one unit is raised to one unit
		let tiny = n >> shift < b(2) || d >> shift < b(2);
		match r {
			Rounding::Down if l > h && !(n >> shift).is_zero() => if d >> shift == b(u128::MAX) { m.known("saturated-rounding") } else { return Err(format!("Down rounds up: {rn}/{rd}")) },
			Rounding::Up if l < h && !(d >> shift).is_zero() => if n >> shift == b(u128::MAX) { m.known("saturated-rounding") } else { return Err(format!("Up rounds down: {rn}/{rd}")) },
			_ => {}
		}
		if !tiny {
			let short = b(rn.min(rd));
			ensure_that!(diff(l, h) / h.max(b(1)) < b(4) && diff(l, h) * short <= h * b(5) + h, "{r:?}: {rn}/{rd} is too far from the exact value");
		}
	}
	Ok(())
}

fn fx(lo: u128, hi: u128) -> impl Strategy<Value = u128> { mag(lo, hi) }
fn fxv(x: u128) -> FixedU128 { FixedU128::from_inner(x) }
fn fits(x: U1024) -> bool { x <= b(u128::MAX) }

pub fn c13(c: &mut Ctx) {
	c.assume("liquidity-mining inputs over the u128 range; refusal is required exactly when an intermediate value does not fit");
	c.check("loyalty", "loyalty multiplier against (t + r*c)/(t + c), monotone in time; non-trivial: strictly between the initial percentage and 1", 300_000, 5_000_000, || (any::<u64>(), 0..=E18, any::<u32>(), 0u64..=1000),
		|(t, r, sc, dt), m| {
			let v = lm::calculate_loyalty_multiplier(*t as u128, fxv(*r), *sc);
			if *t == 0 && *sc == 0 { ensure_that!(v.is_err(), "0/0"); return Ok(()) }
			let v = v.map_err(|e| format!("{e:?}"))?.into_inner();
			let n = (b(*r) * b(*sc as u128) + b(*t as u128) * e18()) ;
			let d = b(*t as u128) + b(*sc as u128);
			ensure_that!(diff(b(v) * d, n) <= d * b(2), "multiplier {v}");
			ensure_that!(v <= E18 && v + 2 >= (*r).min(E18), "multiplier out of range");
			if v > *r && v < E18 { m.nontrivial(); }
			let w = lm::calculate_loyalty_multiplier(*t as u128 + *dt as u128, fxv(*r), *sc).map_err(|e| format!("{e:?}"))?.into_inner();
			ensure_that!(w + 2 >= v, "loyalty falls with time");
			Ok(())
		});
	c.check("farm_rewards", "rewards of the global farm per update: bounded by the maximum, exact below it; non-trivial: below the maximum", 300_000, 5_000_000,
		|| (mag(0, 1 << 110), fx(0, 10 * E18), fx(0, E18), mag(0, 1 << 100), any::<u32>()),
		|(z, adj, y, max, periods), m| {
			let r = lm::calculate_global_farm_rewards(*z, fxv(*adj), fxv(*y), *max, *periods);
			let za = b(*z) * b(*adj) / e18();
			let raw = za * b(*y) * b(*periods as u128) / e18();
			let cap = b(*max) * b(*periods as u128);
			if !fits(za) || !fits(raw) || !fits(cap) { ensure_that!(r.is_err(), "overflow not reported"); return Ok(()) }
			let v = b(r.map_err(|e| format!("{e:?}"))?);
			if raw < cap { m.nontrivial(); }
			ensure_eq!(v, raw.min(cap), "global farm rewards");
			Ok(())
		});
	c.check("yield_farm", "yield farm share of the rewards: never more distributed to shares than taken; non-trivial: positive rewards", 300_000, 5_000_000,
		|| (fx(0, 1000 * E18), fx(0, 1000 * E18), fx(0, 10 * E18), mag(1, 1 << 100)),
		|(r0, r1, mult, tvs), m| {
			let r = lm::calculate_yield_farm_rewards(fxv(*r0), fxv(*r1), fxv(*mult), *tvs);
			if r1 < r0 { ensure_that!(r.is_err(), "negative rewards"); return Ok(()) }
			let stake = b(*tvs) * b(*mult) / e18();
			let rew = stake * b(r1 - r0) / e18();
			let rpvs = rew * e18() / b(*tvs);
			if !fits(stake) || !fits(rew) || !fits(rpvs) { ensure_that!(r.is_err(), "overflow not reported"); return Ok(()) }
			let (d, rewards) = r.map_err(|e| format!("{e:?}"))?;
			if rewards > 0 { m.nontrivial(); }
			ensure_eq!((b(d.into_inner()), b(rewards)), (rpvs, rew), "yield farm rewards");
			ensure_that!(b(d.into_inner()) * b(*tvs) <= b(rewards) * e18(), "distributes more than it receives");
			Ok(())
		});
	c.check("user_reward", "claim: user part plus forfeited part is exactly the accrued maximum minus what was claimed; non-trivial: positive claim", 300_000, 5_000_000,
		|| (fx(0, 1000 * E18), fx(0, 1000 * E18), mag(0, 1 << 100), 0..=E18, 0u32..=1_100_000),
		|(r0, r1, shares, loyalty, claimed_ppm), m| {
			let rew = if r1 >= r0 { b(*shares) * b(r1 - r0) / e18() } else { b(0) };
			let cl = rew * b(*loyalty) / e18();
			let claimed = (cl * b(*claimed_ppm as u128) / b(1_000_000)).low_u128();
			ensure_eq!(lm::calculate_reward(fxv(*r0), fxv(*r1), *shares).ok(), if r1 >= r0 { small(rew) } else { None }, "reward");
			let r = lm::calculate_user_reward(fxv(*r0), *shares, claimed, fxv(*r1), fxv(*loyalty));
			if r1 < r0 { ensure_that!(r.is_err(), "negative"); return Ok(()) }
			if rew.is_zero() { ensure_eq!(r, Ok((0, 0)), "nothing accrued"); return Ok(()) }
			if b(claimed) > cl { ensure_that!(r.is_err(), "claimed twice"); return Ok(()) }
			let (u, f) = r.map_err(|e| format!("{e:?}"))?;
			if u > 0 { m.nontrivial(); }
			ensure_eq!((b(u), b(f)), (cl - b(claimed), rew - cl), "user reward");
			Ok(())
		});
	c.check("accumulators", "reward per share accumulators and shares; non-trivial: fits", 300_000, 5_000_000, || (fx(0, u128::MAX), any_u128(), any_u128(), fx(0, 100 * E18)),
		|(acc, shares, rew, mult), m| {
			let r = lm::calculate_accumulated_rps(fxv(*acc), *shares, *rew);
			if *shares == 0 { ensure_that!(r.is_err(), "no shares"); }
			else {
				let e = b(*rew) * e18() / b(*shares);
				if fits(e) && fits(e + b(*acc)) { m.nontrivial(); ensure_eq!(r.map(|x| b(x.into_inner())).ok(), Some(e + b(*acc)), "rps"); } else { ensure_that!(r.is_err(), "overflow"); }
			}
			ensure_eq!(lm::calculate_valued_shares(*shares, *rew).ok(), small(b(*shares) * b(*rew)), "valued shares");
			ensure_eq!(lm::calculate_global_farm_shares(*shares, fxv(*mult)).ok(), small(b(*shares) * b(*mult) / e18()), "global farm shares");
			Ok(())
		});
}

pub fn c14(c: &mut Ctx) {
	c.assume("staking inputs over the u128 range");
	c.check("slashed_points", "points slashed on a stake increase: never above the points, never below the minimum when there are enough; non-trivial: strictly between", 500_000, 8_000_000, || (mag(0, 1 << 70), mag(1, 1 << 100), any_u128(), 1u8..=255, mag(0, 1000), 0u8..3),
		|(p, cur, inc, w, min, k), m| {
			let inc = match k { 0 => *inc, 1 => cur / 3, _ => cur.saturating_mul(2) };
			let r = st::calculate_slashed_points(*p, *cur, inc, *w, *min);
			let prod = b(inc) * b(*p);
			if !fits(prod) || !fits(b(*cur) * b(*w as u128)) { ensure_eq!(r, None, "overflow"); return Ok(()) }
			let e = prod / (b(*cur) * b(*w as u128));
			let e = e.min(b(*p)).max(b(*min)).min(b(*p)).low_u128();
			ensure_eq!(r, Some(e), "slashed points");
			if e > *min && e < *p { m.nontrivial(); }
			ensure_that!(e <= *p && (e >= *min || e == *p), "slash range");
			ensure_eq!(st::calculate_slashed_points(*p, 0, inc, *w, *min), None, "zero stake");
			ensure_eq!(st::calculate_slashed_points(*p, *cur, inc, 0, *min), None, "zero weight");
			Ok(())
		});
	c.check("rps_and_rewards", "reward accumulator and reward payout against exact arithmetic; non-trivial: positive reward", 300_000, 5_000_000, || (fx(0, u128::MAX), fx(0, u128::MAX), any_u128(), any_u128()),
		|(a, r0, pending, stake), m| {
			let r = st::calculate_accumulated_rps(fxv(*a), *pending, *stake);
			if *stake == 0 { ensure_eq!(r, None, "nothing staked"); }
			else {
				let e = b(*pending) * e18() / b(*stake);
				let e = if fits(e) && fits(e + b(*a)) { Some((e + b(*a)).low_u128()) } else { None };
				ensure_eq!(r.map(|x| x.into_inner()), e, "accumulated rps");
				// never promises more than pending
				if let Some(v) = e { ensure_that!(b(v - *a) * b(*stake) <= b(*pending) * e18(), "promises too much"); }
			}
			let rr = st::calculate_rewards(fxv(*a), fxv(*r0), *stake);
			let e = if a >= r0 { small(b(a - r0) * b(*stake) / e18()) } else { None };
			ensure_eq!(rr, e, "rewards");
			if e.unwrap_or(0) > 0 { m.nontrivial(); }
			ensure_eq!(st::calculate_total_rewards(*a, *r0, *pending), a.saturating_add(*r0).saturating_add(*pending), "total rewards");
			Ok(())
		});
	c.check("points", "points of a position: time and action points weighted, slashed points deducted; non-trivial: slashed and positive", 300_000, 5_000_000,
		|| (mag(0, 1 << 40), mag(0, 1 << 40), any::<u8>(), permill_parts(), mag(0, 1 << 100), 0u32..=1_000_000_000, mag(0, 1 << 50)),
		|(at, now, tpp, tw, ap, aw, sl), m| {
			let r = st::calculate_points(*at, *now, *tpp, Permill::from_parts(*tw), *ap, Perbill::from_parts(*aw), *sl);
			if now < at { ensure_eq!(r, None, "position from the future"); return Ok(()) }
			let t = b(now - at) * b(*tpp as u128) * b(*tw as u128) / b(1_000_000);
			let a = b(*ap) * b(*aw as u128) / b(1_000_000_000);
			let e = if t + a >= b(*sl) { small(t + a - b(*sl)) } else { None };
			ensure_eq!(r, e, "points");
			if *sl > 0 && e.unwrap_or(0) > 0 { m.nontrivial(); }
			ensure_eq!(st::calculate_period_number((*tpp as u128).max(1).try_into().unwrap(), *now), now / (*tpp as u128).max(1), "period");
			Ok(())
		});
	c.check("sigmoid", "payout curve in [0,1), monotone, equal to (ax)^4/(b+(ax)^4); non-trivial: strictly inside", 300_000, 5_000_000, || (mag(0, 1 << 40), 1..=10 * E18, any::<u32>(), mag(0, 1000)),
		|(x, a, bb, dx), m| {
			let r = st::sigmoid(*x, fxv(*a), *bb);
			let ax = b(*a) * b(*x);
			let p4 = ax * ax * ax * ax / (e18() * e18() * e18()); // 18 decimals
			if p4 + b(*bb as u128) * e18() > b(u128::MAX) { ensure_that!(r.is_none() || !fits(p4) , "overflow not reported"); return Ok(()) }
			if p4.is_zero() && *bb == 0 { return Ok(()) }
			let Some(v) = r else { ensure_that!(p4 < b(1000) && *bb == 0, "sigmoid refused"); return Ok(()) };
			let v = v.into_inner();
			ensure_that!(v <= E18 && (*bb == 0 || v < E18 || p4 > e18() * e18()), "sigmoid {v} out of [0,1)");
			// powers are rounded at 1e-18 step by step
			let tol_p = (ax * ax / e18() + ax * b(2)) / e18() * b(4) + b(4);
			let lo = if p4 > tol_p { p4 - tol_p } else { b(0) };
			let f = |p: U1024| { let d = p + b(*bb as u128) * e18(); if d.is_zero() { b(0) } else { p * e18() / d } };
			ensure_that!(b(v) <= f(p4 + tol_p) + b(1) && b(v) + b(1) >= f(lo), "sigmoid {v} deviates from {}", f(p4));
			if v > 0 && v < E18 { m.nontrivial(); }
			if let Some(w) = st::sigmoid(*x + *dx, fxv(*a), *bb) { ensure_that!(w.into_inner() >= v, "sigmoid not monotone"); }
			Ok(())
		});
	c.check("percentage", "payout percentage of an amount; non-trivial: strictly between 0 and all", 200_000, 3_000_000, || (any_u128(), 0..=E18),
		|(a, p), m| {
			let v = st::calculate_percentage_amount(*a, fxv(*p));
			ensure_eq!(b(v), b(*a) * b(*p) / e18(), "percentage");
			if v > 0 && v < *a { m.nontrivial(); }
			Ok(())
		});
}

pub fn c15(c: &mut Ctx) {
	c.check("dynamic_fee", "asset and protocol fee recalculation against an exact model; non-trivial: result strictly between the bounds", 400_000, 8_000_000,
		|| ((any_u128(), any_u128(), any_u128(), 0u8..4), 0u32..=1_000_000, (0u32..=500_000, 0u32..=500_000), (fx(0, E18), fx(0, 100 * E18)), prop_oneof![3 => 0u128..=3, 2 => 0u128..=100_000, 1 => any::<u32>().prop_map(|x| x as u128)]),
		|((vi, vo, liq, k), prev, (min, extra), (decay, amp), diffb), m| {
			let (vi, vo) = if *k > 0 && *liq > 0 { ((b(*vi % 1_000_000) * b(*liq) / b(1_000_000)).low_u128(), (b(*vo % 1_000_000) * b(*liq) / b(1_000_000)).low_u128()) } else { (*vi, *vo) };
			let max = min + extra;
			let prev = (*prev).clamp(*min, max);
			let run = |asset: bool, vi: u128, vo: u128| {
				let v = OracleEntry { amount_in: vi, amount_out: vo, liquidity: *liq };
				let p = FeeParams { min_fee: Permill::from_parts(*min), max_fee: Permill::from_parts(max), decay: fxv(*decay), amplification: fxv(*amp) };
				if asset { recalculate_asset_fee(v, Permill::from_parts(prev), *diffb, p) } else { recalculate_protocol_fee(v, Permill::from_parts(prev), *diffb, p) }.deconstruct()
			};
			const P: u128 = 1_000_000_000_000; // 18 decimals per ppm
			for asset in [true, false] {
				let f = run(asset, vi, vo);
				ensure_that!(f >= *min && f <= max, "fee {f} outside of [{min},{max}]");
				if f > *min && f < max { m.nontrivial(); }
				// model in 18 decimals
				let mut base = b(prev as u128) * b(P);
				if *diffb > 1 { let d = b(*decay) * b(*diffb - 1); base = if base > d { base - d } else { b(0) }; base = base.max(b(*min as u128) * b(P)); }
				let up = if asset { vo >= vi } else { vi >= vo };
				let ax = if *liq == 0 { b(0) } else { b(*amp) * b(vi.abs_diff(vo)) / b(*liq) };
				let e = |slack: bool| { // slack: rounding of x at 1e-18, amplified
					let ax = if slack { ax + b(*amp) / e18() + b(2) } else { let s = b(*amp) / e18() + b(2); if ax > s { ax - s } else { b(0) } };
					let sub = |a: U1024, c: U1024| if a > c { a - c } else { b(0) };
					let v = if !up { sub(base, ax + b(*decay)) } else if ax > b(*decay) { base + (ax - b(*decay)) } else { sub(base, b(*decay) - ax) };
					v
				};
				let (x, y) = (e(false), e(true));
				let (lo, hi) = (x.min(y), x.max(y));
				let q = |v: U1024, round_up: bool| { let t = if round_up { ceil_div(v, b(P)) } else { v / b(P) }; t.min(b(max as u128)).max(b(*min as u128)).low_u128() as u32 };
				ensure_that!(f >= q(lo, false) && f <= q(hi, true), "{} fee {f} not in [{}, {}]", if asset { "asset" } else { "protocol" }, q(lo, false), q(hi, true));
			}
			// symmetry: the protocol fee reacts to inflow as the asset fee to outflow
			ensure_eq!(run(true, vi, vo), run(false, vo, vi), "asset/protocol symmetry");
			// more outflow never lowers the asset fee
			if let Some(vo2) = vo.checked_add(vo / 7 + 1) { ensure_that!(run(true, vi, vo2) >= run(true, vi, vo), "asset fee falls with outflow"); }
			Ok(())
		});
	c.check("rate_limiter", "deferral of incoming amounts: decay, accumulation and deferral against exact arithmetic; non-trivial: deferred", 400_000, 8_000_000, || (any::<u32>(), any_u128(), any_u128(), any_u128(), any::<u32>(), any::<bool>()),
		|(dur, lim, inc, acc, blocks, realistic), m| {
			let (dur, lim, inc, acc, blocks) = if *realistic { (dur % 1_000_000, lim >> 30, inc >> 30, acc >> 30, blocks % 1_000_000) } else { (*dur, *lim, *inc, *acc, *blocks) };
			let d1 = dur.max(1) as u128;
			let dec = rl::decay_accumulated_amount(dur, lim, acc, blocks);
			let e = if fits(b(lim) * b(blocks as u128)) { acc.saturating_sub(lim * blocks as u128 / d1) } else { acc.saturating_sub(u128::MAX / d1) };
			ensure_eq!(dec, e, "decay");
			ensure_that!(dec <= acc, "decay increases");
			ensure_eq!(rl::calculate_new_accumulated_amount(dur, lim, inc, acc, blocks), inc.saturating_add(e), "accumulated");
			let def = rl::calculate_deferred_duration(dur, lim, acc);
			let over = acc.saturating_sub(lim);
			let ex = if fits(b(d1) * b(over)) { d1 * over / lim.max(1) } else { u128::MAX / lim.max(1) };
			ensure_eq!(def, ex.min(u32::MAX as u128) as u32, "deferral");
			if acc <= lim { ensure_eq!(def, 0, "deferred below the limit"); } else if def > 0 { m.nontrivial(); }
			// after the deferral the amount has decayed to (about) the limit
			if def > 0 && def < u32::MAX && *realistic && lim > 0 {
				let left = rl::decay_accumulated_amount(dur, lim, acc, def);
				ensure_that!(b(left) <= b(lim) + b(lim) / b(d1) + b(1), "after waiting, {left} is still above the limit {lim}");
			}
			Ok(())
		});
}
