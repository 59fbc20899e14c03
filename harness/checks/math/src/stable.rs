use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::stableswap::*;
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;
use serde::{Deserialize, Serialize};
use sp_arithmetic::{FixedU128, Permill};

const DI: u8 = MAX_D_ITERATIONS;
const YI: u8 = MAX_Y_ITERATIONS;
const M: u128 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pool { amp: u128, a: Vec<(u128, u8)> }
impl Pool {
	fn res(&self) -> Vec<AssetReserve> { self.a.iter().map(|(x, d)| AssetReserve::new(*x, *d)).collect() }
	fn unit(&self, i: usize) -> u128 { 10u128.pow(18 - self.a[i].1 as u32) }
	fn xp(&self) -> Vec<U1024> { self.a.iter().map(|(x, d)| b(*x) * b(10u128.pow(18 - *d as u32))).collect() }
	fn n(&self) -> usize { self.a.len() }
	fn with(&self, i: usize, v: u128) -> Pool { let mut p = self.clone(); p.a[i].0 = v; p }
}
fn dec() -> impl Strategy<Value = u8> { prop_oneof![3 => Just(18u8), 2 => Just(6), 2 => Just(12), 1 => Just(8), 1 => Just(10), 1 => 6u8..=18] }
/// 2..=5 assets around a common size, per-asset imbalance up to 10^3
pub fn pool() -> impl Strategy<Value = Pool> {
	(mag(10u128.pow(18), 10u128.pow(28)), prop_oneof![1 => Just(1u32), 3 => 1u32..=3, 2 => 1u32..=30, 1 => 1u32..=1000], 2usize..=5, prop_oneof![1 => Just(2u128), 1 => Just(10_000u128), 6 => 2u128..=10_000, 3 => 2u128..=300])
		.prop_flat_map(|(size, imb, n, amp)| {
			prop::collection::vec((0u32..=1_000_000, dec()), n).prop_map(move |v| Pool {
				amp,
				a: v.into_iter().map(|(f, d)| {
					// size * (1 + f*(imb-1)/1e6)
					let x = b(size) * (b(M) + b(f as u128) * b(imb as u128 - 1)) / b(M);
					((x / b(10u128.pow(18 - d as u32))).low_u128().max(1), d)
				}).collect(),
			})
		})
}
/// sign of g(D) = D^{n+1} + ((Ann-1) D - Ann S) n^n prod(x): true if g(D) >= 0, i.e. D is at least the exact invariant
fn d_at_least(xp: &[U1024], amp: u128, d: U1024) -> bool {
	let n = xp.len();
	let ann = b(amp) * b(n as u128);
	let s = xp.iter().fold(b(0), |a, x| a + *x);
	let mut k = b(1);
	for x in xp { k = k * *x * b(n as u128); }
	let mut dp = d;
	for _ in 0..n { dp = dp * d; }
	dp + (ann - b(1)) * d * k >= ann * s * k
}
/// exact invariant rounded down: largest D with g(D) <= 0 (Newton from above, then exact sign tests)
fn d_floor(xp: &[U1024], amp: u128) -> U1024 {
	let n = xp.len();
	let ann = b(amp) * b(n as u128);
	let s = xp.iter().fold(b(0), |a, x| a + *x);
	let mut d = s; // g(S) >= 0 by AM-GM
	for _ in 0..255 {
		let mut dp = d;
		for x in xp { dp = dp * d / (*x * b(n as u128)); }
		let next = (ann * s + dp * b(n as u128)) * d / ((ann - b(1)) * d + b(n as u128 + 1) * dp);
		if next >= d || d - next <= b(1) { d = next; break }
		d = next;
	}
	while gt_zero(xp, amp, d) { d = d - b(1); }
	while !gt_zero(xp, amp, d + b(1)) { d = d + b(1); }
	d
}
fn gt_zero(xp: &[U1024], amp: u128, d: U1024) -> bool {
	let n = xp.len();
	let ann = b(amp) * b(n as u128);
	let s = xp.iter().fold(b(0), |a, x| a + *x);
	let mut k = b(1);
	for x in xp { k = k * *x * b(n as u128); }
	let mut dp = d;
	for _ in 0..n { dp = dp * d; }
	dp + (ann - b(1)) * d * k > ann * s * k
}

/// Bounds on the imbalance fee (raw units) taken from a balance that went `x0` -> `x1` while the exact invariant
/// went `d0` -> `d1` (both rounded down; the code's solver returns up to 4 more, its result is used minus 2).
fn fee_bounds(x0: u128, x1: u128, d0: U1024, d1: U1024, f: u32, n: u128) -> (U1024, U1024) {
	let lo_ideal = b(x0) * (if d1 > b(3) { d1 - b(3) } else { b(0) }) / (d0 + b(5));
	let hi_ideal = b(x0) * (d1 + b(6)) / d0 + b(1);
	let x = b(x1);
	let (far, near) = (diff(x, lo_ideal).max(diff(x, hi_ideal)), if x > hi_ideal { x - hi_ideal } else if x < lo_ideal { lo_ideal - x } else { b(0) });
	let rate = |v: U1024| v * b(f as u128) * b(n) / (b(M) * b(4 * (n - 1)));
	let slack = b(1) + near / e18();
	let lo = rate(near);
	(if lo > slack { lo - slack } else { b(0) }, rate(far) + b(1))
}
fn pair() -> impl Strategy<Value = (usize, usize)> { (0usize..60, 0usize..60) }
fn idx(p: &Pool, (i, j): (usize, usize)) -> (usize, usize) {
	let i = i % p.n();
	let mut j = j % (p.n() - 1);
	if j >= i { j += 1 }
	(i, j)
}
fn share_of(x: u128, ppm: u64) -> u128 { (b(x) * b(ppm as u128) / b(M)).low_u128() }
fn famt(x: u128, a: (u64, u128)) -> u128 { if a.0 == 0 { a.1.min(x.max(1)) } else { share_of(x, a.0).max(1) } }
fn amt(max_ppm: u64) -> impl Strategy<Value = (u64, u128)> { (prop_oneof![1 => Just(0u64), 4 => 1..=max_ppm, 2 => 1u64..=1000], mag(1, 1_000_000_000)) }
pub fn small_fee() -> impl Strategy<Value = u32> { prop_oneof![2 => Just(0u32), 1 => Just(1u32), 5 => 1u32..=10_000, 2 => 0u32..=500_000] }

pub fn c04(c: &mut Ctx) {
	c.assume("2..=5 assets, 6..=18 decimals, balances 1..1e10 tokens, per-pool imbalance up to 1000x, amplification 2..=10000");
	c.check("invariant_d", "D returned for generated pools against the exact root of the curve equation; non-trivial: unequal balances", 200_000, 4_000_000, pool,
		|p, m| {
			let Some(d) = calculate_d::<DI>(&p.res(), p.amp) else { return Err("no D".into()) };
			let xp = p.xp();
			if xp.iter().any(|x| *x != xp[0]) { m.nontrivial(); }
			m.label(["", "", "n2", "n3", "n4", "n5"][p.n()]);
			ensure_that!(d_at_least(&xp, p.amp, b(d)), "D={d} is below the exact invariant");
			ensure_that!(d < 4 || !d_at_least(&xp, p.amp, b(d) - b(4)) , "D={d} exceeds the exact invariant by more than 4");
			// order of assets does not matter
			let mut q = p.clone();
			q.a.reverse();
			ensure_eq!(calculate_d::<DI>(&q.res(), p.amp), Some(d), "D depends on the order of assets");
			Ok(())
		});
	c.check("sell", "sell in a generated pool, exact curve evaluated before and after; non-trivial: positive amount out", 120_000, 2_500_000,
		|| (pool(), pair(), amt(900_000), small_fee()),
		|(p, ij, a, f), m| {
			let (i, j) = idx(p, *ij);
			let a = famt(p.a[i].0, *a);
			let fee = Permill::from_parts(*f);
			let Some(gross) = calculate_out_given_in::<DI, YI>(&p.res(), i, j, a, p.amp) else {
				// refused only when the amount is too small to buy anything at all
				let probe = p.with(i, p.a[i].0 + a).with(j, p.a[j].0 - (1 + 12 / p.unit(j)).min(p.a[j].0 - 1));
				ensure_that!(gt_zero(&probe.xp(), p.amp, d_floor(&p.xp(), p.amp) + b(5)), "sell refused");
				m.label("too_small");
				return Ok(())
			};
			ensure_that!(gross < p.a[j].0, "reserve drained");
			let d0 = d_floor(&p.xp(), p.amp);
			let after = p.with(i, p.a[i].0 + a).with(j, p.a[j].0 - gross);
			ensure_that!(d_at_least(&after.xp(), p.amp, d0) == false || !gt_zero(&after.xp(), p.amp, d0), "the invariant decreased by the trade: out={gross}");
			if gross > 0 { m.nontrivial(); }
			// not short-changed: a few base units (and the solver's 18-decimals slack) more would decrease the invariant
			let more = gross + 3 + 12 / p.unit(j);
			if more < p.a[j].0 {
				let greedy = p.with(i, p.a[i].0 + a).with(j, p.a[j].0 - more);
				// allowed slack: solver returns D up to 4 above exact
				ensure_that!(gt_zero(&greedy.xp(), p.amp, d0 + b(5)), "seller short-changed: {gross}, could have received {more}");
			}
			let Some((net, fa)) = calculate_out_given_in_with_fee::<DI, YI>(&p.res(), i, j, a, p.amp, fee) else { return Err("sell with fee refused".into()) };
			ensure_eq!(b(net) + b(fa), b(gross), "fee + net");
			ensure_that!(b(fa) * b(M) <= b(gross) * b(*f as u128) && (b(fa) + b(1)) * b(M) > b(gross) * b(*f as u128), "fee {fa} of {gross}");
			Ok(())
		});
	c.check("buy", "buy in a generated pool, exact curve evaluated before and after; non-trivial: buy possible", 120_000, 2_500_000,
		|| (pool(), pair(), amt(900_000), small_fee()),
		|(p, ij, a, f), m| {
			let (i, j) = idx(p, *ij);
			let want = famt(p.a[j].0, *a).min(p.a[j].0 - p.a[j].0 / 50);
			if want == 0 || want >= p.a[j].0 { return Ok(()) }
			let Some(cost) = calculate_in_given_out::<DI, YI>(&p.res(), i, j, want, p.amp) else { return Err("buy refused".into()) };
			m.nontrivial();
			let d0 = d_floor(&p.xp(), p.amp);
			let after = p.with(i, p.a[i].0 + cost).with(j, p.a[j].0 - want);
			ensure_that!(!gt_zero(&after.xp(), p.amp, d0), "the invariant decreased by the trade: cost={cost}");
			let slack = 3 + 12 / p.unit(i);
			if cost > slack {
				let cheap = p.with(i, p.a[i].0 + cost - slack).with(j, p.a[j].0 - want);
				ensure_that!(gt_zero(&cheap.xp(), p.amp, d0 + b(5)), "buyer overcharged: {cost}");
			}
			let Some((tot, fa)) = calculate_in_given_out_with_fee::<DI, YI>(&p.res(), i, j, want, p.amp, Permill::from_parts(*f)) else { return Err("buy with fee refused".into()) };
			ensure_eq!(b(tot), b(cost) + b(fa), "fee + cost");
			ensure_that!(b(fa) * b(M) >= b(cost) * b(*f as u128) && b(fa) * b(M) < b(cost) * b(*f as u128) + b(M), "fee {fa} of {cost}");
			// selling what was paid yields at least what was bought, minus rounding
			let Some(back) = calculate_out_given_in::<DI, YI>(&p.res(), i, j, cost, p.amp) else { return Err("sell refused".into()) };
			ensure_that!(back + 3 + 12 / p.unit(j) >= want, "buying {want} costs {cost}, which sells for only {back}");
			Ok(())
		});
	c.check("round_trip", "sell and sell back through the updated reserves; non-trivial: something came back", 100_000, 2_000_000,
		|| (pool(), pair(), amt(900_000)),
		|(p, ij, a), m| {
			let (i, j) = idx(p, *ij);
			let a = famt(p.a[i].0, *a);
			let Some(out) = calculate_out_given_in::<DI, YI>(&p.res(), i, j, a, p.amp) else { return Ok(()) };
			if out == 0 { return Ok(()) }
			let q = p.with(i, p.a[i].0 + a).with(j, p.a[j].0 - out);
			let Some(back) = calculate_out_given_in::<DI, YI>(&q.res(), j, i, out, p.amp) else { return Ok(()) };
			if back > 0 { m.nontrivial(); }
			ensure_that!(back <= a, "round trip profits: {a} -> {out} -> {back}");
			Ok(())
		});
	c.check("degenerate", "invalid indices, equal indices, zero reserves are refused, never a value or a panic; every case non-trivial", 40_000, 400_000,
		|| (pool(), 0usize..8, 0usize..8, mag(0, 10u128.pow(20)), any::<bool>()),
		|(p, i, j, a, z), m| {
			m.nontrivial();
			let mut p = p.clone();
			let n = p.n();
			if *z { let k = i % n; p.a[k].0 = 0; ensure_that!(calculate_d::<DI>(&p.res(), p.amp).is_none(), "D computed with one empty reserve"); }
			let r = p.res();
			let s = calculate_out_given_in::<DI, YI>(&r, *i, *j, *a, p.amp);
			let t = calculate_in_given_out::<DI, YI>(&r, *i, *j, *a, p.amp);
			if i == j || *i >= n || *j >= n { ensure_that!(s.is_none() && t.is_none(), "trade between invalid assets {i} {j}"); }
			else if *z { ensure_that!(s.is_none() && t.is_none(), "trade with one empty reserve"); }
			else { ensure_that!(*a < p.a[*j].0 || t.is_none(), "bought the whole reserve"); }
			let zp: Vec<_> = p.a.iter().map(|(_, d)| AssetReserve::new(0, *d)).collect();
			ensure_eq!(calculate_d::<DI>(&zp, p.amp), Some(0), "D of an empty pool");
			Ok(())
		});
}

/// issuance given as ppm of D (shares drift from D as fees accrue)
fn issuance(p: &Pool, ppm: u64) -> u128 { let d = calculate_d::<DI>(&p.res(), p.amp).unwrap_or(0); share_of(d, ppm).max(1) }
fn iss() -> impl Strategy<Value = u64> { prop_oneof![3 => Just(1_000_000u64), 2 => 500_000u64..=1_000_000, 1 => 1_000u64..=2_000_000] }

pub fn c05(c: &mut Ctx) {
	c.assume("as C04; issued shares between 0.1% and 200% of the invariant");
	c.check("add_liquidity", "several assets added at once; shares against the exact growth of the invariant; non-trivial: shares minted", 100_000, 2_000_000,
		|| (pool(), prop::collection::vec(prop_oneof![2 => Just(0u64), 4 => 0u64..=500_000, 1 => 0u64..=1000], 5), iss(), small_fee()),
		|(p, adds, is, f), m| {
			let issue = issuance(p, *is);
			let mut q = p.clone();
			for (k, a) in q.a.iter_mut().enumerate() { a.0 += share_of(a.0, adds[k]); }
			let fee = Permill::from_parts(*f);
			let r = calculate_shares::<DI>(&p.res(), &q.res(), p.amp, issue, fee);
			let (d0, d1) = (d_floor(&p.xp(), p.amp), d_floor(&q.xp(), p.amp));
			let Some(s) = r else { 
				// refused only when the growth of the invariant does not cover the fee
				let n = p.n() as u128;
				let x: Vec<U1024> = (0..p.n()).map(|k| { let (_, hi) = fee_bounds(p.a[k].0, q.a[k].0, d0, d1, *f, n); (b(q.a[k].0) - hi.min(b(q.a[k].0))) * b(p.unit(k)) }).collect();
				ensure_that!(d1 < d0 + b(8) || x.iter().any(|v| v.is_zero()) || d_floor(&x, p.amp) < d0 + b(8), "adding liquidity refused");
				m.label("refused");
				return Ok(())
			};
			if s > 0 { m.nontrivial(); }
			// never more than pro rata to the growth of the invariant
			ensure_that!(b(s) * d0 <= b(issue) * (d1 + b(6) - d0), "too many shares {s} for D {d0}->{d1}, issuance {issue}");
			if *f == 0 {
				ensure_that!((b(s) + b(1)) * (d0 + b(5)) + b(issue) * b(10) >= b(issue) * (d1 - d0), "too few shares {s} for D {d0}->{d1}");
			} else {
				m.label("fee");
				// fee base: distance of each balance from its proportional ideal, times fee*n/(4(n-1)); recompute exactly
				let n = p.n() as u128;
				let (mut xlo, mut xhi) = (q.xp(), q.xp());
				for k in 0..p.n() {
					let (lo, hi) = fee_bounds(p.a[k].0, q.a[k].0, d0, d1, *f, n);
					xlo[k] = (b(q.a[k].0) - lo.min(b(q.a[k].0))) * b(p.unit(k));
					xhi[k] = (b(q.a[k].0) - hi.min(b(q.a[k].0))) * b(p.unit(k));
				}
				if xlo.iter().all(|x| !x.is_zero()) {
					let da = d_floor(&xlo, p.amp);
					let grow = if da + b(6) > d0 { da + b(6) - d0 } else { b(0) };
					ensure_that!(b(s) * d0 <= b(issue) * grow, "imbalance fee not charged: shares {s}, fee-adjusted D {da} from {d0}");
				}
				if xhi.iter().all(|x| !x.is_zero()) {
					let da = d_floor(&xhi, p.amp);
					let grow = if da > d0 + b(6) { da - d0 - b(6) } else { b(0) };
					ensure_that!((b(s) + b(1)) * (d0 + b(5)) >= b(issue) * grow, "provider overcharged: {s}, fee-adjusted D {da} from {d0}");
				}
			}
			// first liquidity
			let first = calculate_shares::<DI>(&p.res().iter().map(|r| AssetReserve::new(0, r.decimals)).collect::<Vec<_>>(), &q.res(), p.amp, 0, fee);
			match first { Some(v) => ensure_that!(b(v) <= d1 + b(2) && b(v) + b(3) >= d1, "initial shares {v} for D {d1}"), None => return Err("initial liquidity refused".into()) }
			Ok(())
		});
	c.check("withdraw_one", "withdraw shares into one asset; the pool left behind is worth at least its remaining shares; non-trivial: positive amount", 100_000, 2_000_000,
		|| (pool(), 0usize..60, iss(), amt(950_000), small_fee()),
		|(p, k, is, part, f), m| {
			let k = *k % p.n();
			let issue = issuance(p, *is);
			let shares = famt(issue, *part);
			if shares >= issue { return Ok(()) }
			let d0 = d_floor(&p.xp(), p.amp);
			let target = d0 - d0 * b(shares) / b(issue);
			let r = calculate_withdraw_one_asset::<DI, YI>(&p.res(), shares, k, issue, p.amp, Permill::from_parts(*f));
			let Some((out, fee)) = r else { m.label("refused"); ensure_that!(*f > 0 || shares < issue / 1_000_000 || shares > issue / 10 * 9, "withdrawal refused");  return Ok(()) };
			if out > 0 { m.nontrivial(); }
			ensure_that!(out <= p.a[k].0, "overdrawn");
			let after = p.with(k, p.a[k].0 - out);
			ensure_that!(!gt_zero(&after.xp(), p.amp, if target > b(6) { target - b(6) } else { b(0) }), "remaining shares diluted: out={out}");
			if *f == 0 {
				ensure_eq!(fee, 0, "fee charged at zero rate");
				let more = out + 3 + 16 / p.unit(k) ;
				if more < p.a[k].0 { ensure_that!(gt_zero(&p.with(k, p.a[k].0 - more).xp(), p.amp, target + b(8)), "withdrawer short-changed: {out}"); }
			} else {
				m.label("fee");
				// out + fee is what would have been paid without fee
				let Some((out0, _)) = calculate_withdraw_one_asset::<DI, YI>(&p.res(), shares, k, issue, p.amp, Permill::zero()) else { return Err("fee-less withdrawal refused".into()) };
				ensure_that!(out <= out0, "fee increases the payout");
				ensure_that!(diff(b(out) + b(fee), b(out0)) <= b(2), "out {out} + fee {fee} != {out0}");
				// exact reference: the imbalance fee reduces every balance, the rest is paid out on the curve of the remaining D
				let n = p.n() as u128;
				let rate = |v: U1024| v * b(*f as u128) * b(n) / (b(M) * b(4 * (n - 1)));
				let sub = |x: U1024, y: U1024| if x > y { x - y } else { b(0) };
				let xp = p.xp();
				let (mut lo, mut hi) = (xp.clone(), xp.clone()); // least / most reserve left after the fee
				for t in 0..p.n() {
					let x = xp[t];
					let keep = x - x * b(shares) / b(issue); // x * (1 - s/i), rounded up
					let (dlo, dhi) = if t == k {
						let y_hi = x - b(out0) * b(p.unit(k));
						let y_lo = sub(x, (b(out0) + b(1)) * b(p.unit(k)));
						(sub(sub(keep, b(2)), y_hi), sub(keep + x / d0 + b(2), y_lo))
					} else { (sub(sub(x, keep), x / d0 + b(2)), x - keep + b(2)) };
					hi[t] = x - sub(rate(dlo), b(2) + dlo / e18());
					lo[t] = sub(x, rate(dhi) + b(1));
				}
				let raw = b(out) * b(p.unit(k));
				if hi[k] > raw {
					let mut st = hi.clone();
					st[k] = hi[k] - raw;
					ensure_that!(!gt_zero(&st, p.amp, sub(target, b(6))), "imbalance fee not fully charged: out={out} fee={fee} without fee {out0}");
				} else { return Err(format!("paid out {out} beyond the reserve after fee")) }
				let more = raw + b(2 * p.unit(k) + 16);
				if lo[k] > more && lo.iter().all(|x| !x.is_zero()) {
					lo[k] = lo[k] - more;
					ensure_that!(gt_zero(&lo, p.amp, target + b(8)), "overcharged: out={out} fee={fee} without fee {out0}");
				}
			}
			Ok(())
		});
	c.check("withdraw_exact", "shares burned for an exact amount of one asset; non-trivial: possible", 100_000, 2_000_000,
		|| (pool(), 0usize..60, iss(), amt(900_000), small_fee()),
		|(p, k, is, part, f), m| {
			let k = *k % p.n();
			let issue = issuance(p, *is);
			let a = famt(p.a[k].0, *part).min(p.a[k].0 / 10 * 9);
			if a == 0 { return Ok(()) }
			let Some(s) = calculate_shares_for_amount::<DI>(&p.res(), k, a, p.amp, issue, Permill::from_parts(*f)) else { m.label("refused"); ensure_that!(*f > 0, "refused"); return Ok(()) };
			m.nontrivial();
			let (d0, d1) = (d_floor(&p.xp(), p.amp), d_floor(&p.with(k, p.a[k].0 - a).xp(), p.amp));
			// burn at least pro rata to the loss of the invariant (less solver slack)
			let loss = d0 - d1;
			let l = if loss > b(6) { loss - b(6) } else { b(0) };
			ensure_that!(b(s) * (d0 + b(5)) >= b(issue) * l, "too few shares burned: {s}");
			if *f == 0 { ensure_that!(b(s) * d0 <= b(issue) * (loss + b(10)) + d0 * b(2), "too many shares burned: {s}"); }
			else {
				let Some(s0) = calculate_shares_for_amount::<DI>(&p.res(), k, a, p.amp, issue, Permill::zero()) else { return Err("refused".into()) };
				ensure_that!(s >= s0, "fee reduces the shares burned");
				// the fee removes value in proportion: recompute the adjusted invariant exactly
				let n = p.n() as u128;
				let q = p.with(k, p.a[k].0 - a);
				let mut x2 = q.xp();
				for t in 0..p.n() {
					let (lo, _) = fee_bounds(p.a[t].0, q.a[t].0, d0, d1 + b(2), *f, n);
					x2[t] = (b(q.a[t].0) - lo.min(b(q.a[t].0))) * b(p.unit(t));
				}
				if x2.iter().all(|x| !x.is_zero()) {
					let da = d_floor(&x2, p.amp);
					let loss = if d0 > da + b(12) { d0 - da - b(12) } else { b(0) };
					ensure_that!((b(s) + b(1)) * (d0 + b(5)) >= b(issue) * loss, "imbalance fee not charged on exact withdrawal: {s}");
				}
			}
			Ok(())
		});
	c.check("add_one", "price in one asset of an exact number of new shares; non-trivial: priced", 100_000, 2_000_000,
		|| (pool(), 0usize..60, iss(), amt(500_000), small_fee()),
		|(p, k, is, part, f), m| {
			let k = *k % p.n();
			let issue = issuance(p, *is);
			let shares = famt(issue, *part);
			let Some((cost, _fee)) = calculate_add_one_asset::<DI, YI>(&p.res(), shares, k, issue, p.amp, Permill::from_parts(*f)) else { m.label("refused"); ensure_that!(shares < issue / 1_000_000 || *f > 0, "refused"); return Ok(()) };
			if cost > 0 { m.nontrivial(); }
			let d0 = d_floor(&p.xp(), p.amp);
			let grow = d0 * b(shares) / b(issue);
			let after = p.with(k, p.a[k].0 + cost);
			ensure_that!(!gt_zero(&after.xp(), p.amp, d0 + grow), "new shares {shares} dilute the pool: cost={cost}");
			if *f == 0 {
				let slack = 3 + 24 / p.unit(k);
				if cost > slack { ensure_that!(gt_zero(&p.with(k, p.a[k].0 + cost - slack).xp(), p.amp, d0 + grow + b(10)), "buyer of shares overcharged: {cost}"); }
			} else if let Some((c0, _)) = calculate_add_one_asset::<DI, YI>(&p.res(), shares, k, issue, p.amp, Permill::zero()) {
				ensure_that!(cost >= c0, "fee makes shares cheaper: {cost} < {c0}");
				// exact reference: the imbalance fee reduces every balance, the asset tops up to the curve of the grown D
				let n = p.n() as u128;
				let rate = |v: U1024| v * b(*f as u128) * b(n) / (b(M) * b(4 * (n - 1)));
				let sub = |x: U1024, y: U1024| if x > y { x - y } else { b(0) };
				let xp = p.xp();
				let (mut lo, mut hi) = (xp.clone(), xp.clone());
				for t in 0..p.n() {
					let x = xp[t];
					let g = x * b(shares) / b(issue);
					let (dlo, dhi) = if t == k {
						let y_hi = x + b(c0) * b(p.unit(k));
						let y_lo = x + sub(b(c0), b(3)) * b(p.unit(k));
						(sub(y_lo, x + g + b(2)), sub(y_hi, sub(x + g, x / d0 + b(2))))
					} else { (sub(g, x / d0 + b(2)), g + b(2)) };
					hi[t] = x - sub(rate(dlo), b(2) + dlo / e18());
					lo[t] = sub(x, rate(dhi) + b(1));
				}
				let raw = b(cost) * b(p.unit(k));
				hi[k] = hi[k] + raw;
				ensure_that!(!gt_zero(&hi, p.amp, sub(d0 + grow, b(2))), "imbalance fee not fully charged on new shares: {cost} vs {c0} without fee");
				let less = b(3 * p.unit(k) + 24);
				if raw > less && lo.iter().all(|x| !x.is_zero()) {
					lo[k] = lo[k] + raw - less;
					ensure_that!(gt_zero(&lo, p.amp, d0 + grow + b(12)), "buyer of shares overcharged: {cost} vs {c0} without fee");
				}
			}
			Ok(())
		});
	c.check("history", "random histories of adds, withdrawals and trades on one pool: value per share never falls; non-trivial: at least 4 operations took effect", 4_000, 80_000,
		|| (pool(), prop::collection::vec((0u8..6, pair(), amt(400_000)), 1..20), small_fee()),
		|(p, ops, f), m| {
			let mut p = p.clone();
			let mut issue = issuance(&p, 1_000_000);
			let fee = Permill::from_parts(*f);
			let mut done = 0;
			for (op, ij, a) in ops {
				let (i, j) = idx(&p, *ij);
				let (d0, i0) = (d_floor(&p.xp(), p.amp), issue);
				// keep within the C04 domain
				let (mx, mn) = (p.xp().into_iter().max().unwrap(), p.xp().into_iter().min().unwrap());
				if mx > mn * b(2000) || mx > b(10u128.pow(31)) || mn < b(10u128.pow(15)) || issue < 1000 { break }
				match op {
					0 => { let x = famt(p.a[i].0, *a); if let Some((o, _)) = calculate_out_given_in_with_fee::<DI, YI>(&p.res(), i, j, x, p.amp, fee) { p.a[i].0 += x; p.a[j].0 -= o; done += 1; } }
					1 => { let x = famt(p.a[j].0, *a) / 2; if x > 0 { if let Some((o, _)) = calculate_in_given_out_with_fee::<DI, YI>(&p.res(), i, j, x, p.amp, fee) { p.a[i].0 += o; p.a[j].0 -= x; done += 1; } } }
					2 => { let x = famt(p.a[i].0, *a); let q = p.with(i, p.a[i].0 + x); if let Some(s) = calculate_shares::<DI>(&p.res(), &q.res(), p.amp, issue, fee) { p = q; issue += s; done += 1; } }
					3 => { let s = famt(issue, *a); if let Some((o, _)) = calculate_withdraw_one_asset::<DI, YI>(&p.res(), s, i, issue, p.amp, fee) { if o < p.a[i].0 { p.a[i].0 -= o; issue -= s; done += 1; } } }
					4 => { let x = famt(p.a[i].0, *a) / 2; if x > 0 { if let Some(s) = calculate_shares_for_amount::<DI>(&p.res(), i, x, p.amp, issue, fee) { if s < issue { p.a[i].0 -= x; issue -= s; done += 1; } } } }
					_ => { let s = famt(issue, *a); if let Some((o, _)) = calculate_add_one_asset::<DI, YI>(&p.res(), s, i, issue, p.amp, fee) { p.a[i].0 += o; issue += s; done += 1; } }
				}
				let d1 = d_floor(&p.xp(), p.amp);
				// D1/I1 >= D0/I0 up to the solver's absolute slack
				ensure_that!((d1 + b(10)) * b(i0) >= d0 * b(issue), "operation {op} lowers the value per share: D {d0}->{d1}, shares {i0}->{issue}");
			}
			if done >= 4 { m.nontrivial(); }
			Ok(())
		});
}

pub fn c06(c: &mut Ctx) {
	c.check("amplification_ramp", "amplification at a block against the exact linear interpolation; non-trivial: strictly inside the ramp", 300_000, 4_000_000,
		|| (2u128..=10_000, 2u128..=10_000, mag(0, 1 << 40), mag(0, 1 << 24), any::<u32>(), 0u8..6),
		|(a0, a1, s, len, at, k), m| {
			let e = s + len;
			let blk = match k { 0 => *s, 1 => e, 2 => s.saturating_sub(*at as u128), 3 => e + *at as u128, _ => s + if *len > 0 { *at as u128 % len } else { 0 } };
			let v = calculate_amplification(*a0, *a1, *s, e, blk);
			let (lo, hi) = (*a0.min(a1), *a0.max(a1));
			ensure_that!(v >= lo && v <= hi, "amplification {v} outside [{lo},{hi}]");
			if blk < *s || *len == 0 { ensure_eq!(v, *a0, "before the ramp"); return Ok(()) }
			if blk >= e { ensure_eq!(v, *a1, "after the ramp"); return Ok(()) }
			if blk > *s { m.nontrivial(); }
			// |v - exact| < 1
			let exact_n = *a0 as i128 * (*len as i128) + (*a1 as i128 - *a0 as i128) * (blk - s) as i128;
			let d = v as i128 * *len as i128 - exact_n;
			ensure_that!(d.unsigned_abs() < *len, "not linear: {v} at {blk} of {s}..{e}");
			let w = calculate_amplification(*a0, *a1, *s, e, blk + 1);
			ensure_that!(if a1 >= a0 { w >= v } else { w <= v }, "ramp not monotone");
			Ok(())
		});
	c.check("spot_price", "spot price between two stable assets against the exact derivative of the curve, with fee; non-trivial: price away from 1", 120_000, 2_500_000,
		|| (pool(), pair(), prop::option::of(0u32..=999_999)),
		|(p, ij, fee), m| {
			let (i, j) = idx(p, *ij);
			let d = calculate_d::<DI>(&p.res(), p.amp).ok_or("no D")?;
			let Some(v) = calculate_spot_price_between_two_stable_assets(&p.res(), p.amp, d, i, j, fee.map(Permill::from_parts)) else { return Err("no spot price".into()) };
			let xp = p.xp();
			let n = p.n() as u128;
			let ann = b(p.amp) * b(n);
			// exact: x0 (Ann xi + c) / (xi (Ann x0 + c)), c = D^{n+1}/(n^n prod)
			let mut k = b(1); let mut dp = b(d);
			for x in &xp { k = k * *x * b(n); dp = dp * b(d); }
			let num = xp[i] * (ann * xp[j] * k + dp);
			let den = xp[j] * (ann * xp[i] * k + dp);
			// value * (1-fee)
			let f = M - fee.unwrap_or(0) as u128;
			let got = b(v.into_inner()) * b(f) ; // ~ num/den * 1e18 * M
			let shift = if num.bits() > 820 { num.bits() - 820 } else { 0 };
			let want = (num >> shift) * e18() * b(M) / (den >> shift);
			if diff(num, den) > den / b(1000) { m.nontrivial(); }
			let tol = want / b(1_000_000_000) + b(10 * M);
			ensure_that!(diff(got, want) <= tol, "spot price {v:?} deviates: {got} vs {want}");
			Ok(())
		});
	c.check("spot_vs_trade", "no trade is better than the quoted spot price; non-trivial: positive output", 80_000, 1_500_000,
		|| (pool(), pair(), amt(500_000), small_fee()),
		|(p, ij, a, f), m| {
			let (i, j) = idx(p, *ij);
			let a = famt(p.a[i].0, *a);
			let fee = Permill::from_parts(*f);
			let ids: Vec<_> = p.res().into_iter().enumerate().map(|(k, r)| (k as u32 + 1, r)).collect();
			let Some(v) = calculate_spot_price(999, ids, p.amp, i as u32 + 1, j as u32 + 1, 1, 1, Some(fee)) else { return Err("no spot price".into()) };
			let Some((out, _)) = calculate_out_given_in_with_fee::<DI, YI>(&p.res(), i, j, a, p.amp, fee) else { return Ok(()) };
			if out > 0 { m.nontrivial(); }
			// in/out >= spot (in 18 decimals), within 1e-9 and 1 unit
			let lhs = b(a) * b(p.unit(i)) * e18();
			let rhs = b(out.saturating_sub(1)) * b(p.unit(j)) * b(v.into_inner()); // the fee is rounded to a unit
			ensure_that!(lhs + rhs / b(1_000_000_000) + e18() * b(10) >= rhs, "traded {a} for {out}, better than spot {v:?}");
			Ok(())
		});
	c.check("share_price", "share price of each asset against the exact gradient; non-trivial: always", 60_000, 1_200_000,
		|| (pool(), 0usize..60, iss()),
		|(p, k, is), m| {
			let k = *k % p.n();
			let issue = issuance(p, *is);
			let d = calculate_d::<DI>(&p.res(), p.amp).ok_or("no D")?;
			let Some((pn, pd)) = calculate_share_price::<DI>(&p.res(), p.amp, issue, k, None) else { return Err("no share price".into()) };
			m.nontrivial();
			ensure_eq!(calculate_share_price::<DI>(&p.res(), p.amp, issue, k, Some(d)), Some((pn, pd)), "price differs with a precomputed D");
			let all = calculate_share_prices::<DI>(&p.res(), p.amp, issue).ok_or("no prices")?;
			ensure_eq!(all[k], (pn, pd), "price list");
			// exact: (D ann x + x c (n+1) - x D) / (issuance (ann x + c)), c = D^{n+1}/(n^n prod), scaled by the decimals
			let xp = p.xp();
			let n = p.n() as u128;
			let ann = b(p.amp) * b(n);
			let mut kk = b(1); let mut dp = b(d);
			for x in &xp { kk = kk * *x * b(n); dp = dp * b(d); }
			let c_ = dp / kk;
			let x = xp[k];
			let num = x * (b(d) * ann + c_ * b(n + 1) - b(d));
			let den = b(issue) * (ann * x + c_) * b(p.unit(k));
			// compare cross products within 1e-6
			let (l, r) = (b(pn) * den, b(pd) * num);
			ensure_that!(diff(l, r) <= r / b(1_000_000) + b(pd) * den / b(u128::MAX) * b(4) , "share price {pn}/{pd} deviates from {num}/{den}");
			Ok(())
		});
	c.check("share_spot_price", "spot price between share token and a stable asset equals the rate of the minimal trade; non-trivial: priced", 60_000, 1_000_000,
		|| (pool(), 0usize..60, iss(), mag(1_000, 1_000_000_000), small_fee()),
		|(p, k, is, min, f), m| {
			let k = *k % p.n();
			let issue = issuance(p, *is);
			let ids: Vec<_> = p.res().into_iter().enumerate().map(|(k, r)| (k as u32 + 1, r)).collect();
			let id = k as u32 + 1;
			let fee = Permill::from_parts(*f);
			let sell_share = calculate_spot_price(999, ids.clone(), p.amp, 999, id, issue, *min, Some(fee));
			let e = calculate_shares_for_amount::<DI>(&p.res(), k, *min, p.amp, issue, fee).and_then(|s| <FixedU128 as sp_arithmetic::FixedPointNumber>::checked_from_rational(s, *min));
			ensure_eq!(sell_share, e, "share -> asset");
			let buy_share = calculate_spot_price(999, ids.clone(), p.amp, id, 999, issue, *min, Some(fee));
			let q = p.with(k, p.a[k].0 + *min);
			let e2 = calculate_shares::<DI>(&p.res(), &q.res(), p.amp, issue, fee).and_then(|s| <FixedU128 as sp_arithmetic::FixedPointNumber>::checked_from_rational(*min, s));
			ensure_eq!(buy_share, e2, "asset -> share");
			if sell_share.is_some() || buy_share.is_some() { m.nontrivial(); }
			ensure_that!(calculate_spot_price(999, ids, p.amp, 999, 999, issue, *min, None).is_none(), "share against itself priced");
			Ok(())
		});
}
