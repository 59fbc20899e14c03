use crate::Rounding;
use primitive_types::U256;

/// `a * b / c` over a 256-bit intermediate, `None` on zero divisor or if the result does not fit.
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
	if c == 0 {
		return None;
	}
	let (q, rem) = match a.checked_mul(b) {
		Some(p) => (p / c, p % c),
		None => {
			let p = U256::from(a) * U256::from(b);
			let (q, rem) = p.div_mod(U256::from(c));
			if q > U256::from(u128::MAX) {
				return None;
			}
			(q.low_u128(), rem.low_u128())
		}
	};
	let up = match r {
		Rounding::Up => rem > 0,
		Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
		Rounding::NearestPrefDown => rem > c / 2,
		Rounding::Down => false,
	};
	if up {
		q.checked_add(1)
	} else {
		Some(q)
	}
}

pub fn gcd(a: u128, b: u128) -> u128 {
	let (mut a, mut b) = (a, b);
	while b != 0 {
		let t = a % b;
		a = b;
		b = t;
	}
	a
}

/// Floor square root.
pub const fn sqrt(mut n: u128) -> u128 {
	if n == 0 {
		return 0;
	}
	let mut bit = 1u128 << ((127 - n.leading_zeros()) / 2 * 2);
	let mut result = 0u128;
	while bit > 0 {
		if n >= result + bit {
			n -= result + bit;
			result = result / 2 + bit;
		} else {
			result /= 2;
		}
		bit /= 4;
	}
	result
}

/// Arbitrary-precision integer as far as callers of `to_big_uint` need it (products of a few `u128`s).
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigUint(primitive_types::U512);
pub fn to_big_uint(x: u128) -> BigUint {
	BigUint(primitive_types::U512::from(x))
}
impl std::ops::Mul for BigUint {
	type Output = Self;
	fn mul(self, o: Self) -> Self { BigUint(self.0 * o.0) }
}
impl std::ops::Add for BigUint {
	type Output = Self;
	fn add(self, o: Self) -> Self { BigUint(self.0 + o.0) }
}
impl std::ops::Sub for BigUint {
	type Output = Self;
	fn sub(self, o: Self) -> Self { BigUint(self.0 - o.0) }
}

/// Nearest (ties down) quotient of `a * b / c`, usable in constants; `None` when it does not fit or `c` is zero.
pub const fn mul_div_nearest(a: u128, b: u128, c: u128) -> Option<u128> {
	if c == 0 { return None; }
	const M: u128 = u64::MAX as u128;
	let (ah, al, bh, bl) = (a >> 64, a & M, b >> 64, b & M);
	let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
	let mid = (ll >> 64) + (lh & M) + (hl & M);
	let lo = (ll & M) | (mid << 64);
	let mut rem = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
	let mut q = 0u128;
	if rem == 0 { q = lo / c; rem = lo % c; } else {
		if rem >= c { return None; }
		let mut i = 128;
		while i > 0 {
			i -= 1;
			let top = rem >> 127 != 0;
			rem = (rem << 1) | ((lo >> i) & 1);
			q <<= 1;
			if top || rem >= c { rem = rem.wrapping_sub(c); q |= 1; }
		}
	}
	if rem > c / 2 { q.checked_add(1) } else { Some(q) }
}
#[cfg(test)]
#[test]
fn mul_div_nearest_matches() {
	let mut x = 1u64;
	let mut r = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ((x as u128) << 64 | x.wrapping_mul(0x9E3779B97F4A7C15) as u128) >> (x % 128) };
	for _ in 0..2_000_000 { let (a, b, c) = (r(), r(), r()); assert_eq!(mul_div_nearest(a, b, c), multiply_by_rational_with_rounding(a, b, c, Rounding::NearestPrefDown)); }
}
