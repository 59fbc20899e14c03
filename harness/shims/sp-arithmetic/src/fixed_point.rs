use crate::helpers_128bit::multiply_by_rational_with_rounding;
use crate::traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedSub, One, SaturatedConversion, Saturating, UniqueSaturatedInto, Zero};
use crate::{PerThing, Rounding, SignedRounding};
use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt;
use std::ops;

pub trait FixedPointOperand:
	Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg
{
}
impl<T> FixedPointOperand for T where
	T: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedNeg
{
}

#[derive(Clone, Copy)]
struct I129 {
	value: u128,
	negative: bool,
}
impl I129 {
	fn of<N: FixedPointOperand>(n: N) -> I129 {
		if n < N::zero() {
			let value: u128 = n.checked_neg().map(|n| n.unique_saturated_into()).unwrap_or_else(|| {
				N::max_value().unique_saturated_into().saturating_add(1)
			});
			I129 { value, negative: true }
		} else {
			I129 { value: n.unique_saturated_into(), negative: false }
		}
	}
}
fn from_i129<N: FixedPointOperand>(n: I129) -> Option<N> {
	let max_plus_one: u128 = N::max_value().unique_saturated_into().saturating_add(1);
	if n.negative && N::min_value() < N::zero() && n.value == max_plus_one {
		Some(N::min_value())
	} else {
		let unsigned_inner: N = n.value.try_into().ok()?;
		let inner = if n.negative { unsigned_inner.checked_neg()? } else { unsigned_inner };
		Some(inner)
	}
}
fn to_bound<N: FixedPointOperand, D: FixedPointOperand, R: Bounded>(n: N, m: D) -> R {
	if (n < N::zero()) != (m < D::zero()) { R::min_value() } else { R::max_value() }
}

pub trait FixedPointNumber:
	Sized + Copy + Default + fmt::Debug + Saturating + Bounded + Eq + PartialEq + Ord + PartialOrd
	+ CheckedSub + CheckedAdd + CheckedMul + CheckedDiv
	+ ops::Add<Output = Self> + ops::Sub<Output = Self> + ops::Div<Output = Self> + ops::Mul<Output = Self>
	+ Zero + One
{
	type Inner: fmt::Debug + One + CheckedMul + CheckedDiv + FixedPointOperand;
	const DIV: Self::Inner;
	const SIGNED: bool;
	fn accuracy() -> Self::Inner { Self::DIV }
	fn from_inner(int: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
	fn saturating_from_integer<N: FixedPointOperand>(int: N) -> Self {
		let mut n = I129::of(int);
		n.value = n.value.saturating_mul(Self::DIV.unique_saturated_into());
		Self::from_inner(from_i129(n).unwrap_or_else(|| to_bound(int, 0u8 as u128)))
	}
	fn checked_from_integer<N: Into<Self::Inner>>(int: N) -> Option<Self> {
		let int: Self::Inner = int.into();
		int.checked_mul(&Self::DIV).map(Self::from_inner)
	}
	fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
		if d == D::zero() { panic!("attempt to divide by zero") }
		Self::checked_from_rational(n, d).unwrap_or_else(|| to_bound(n, d))
	}
	fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> {
		if d == D::zero() { return None }
		let n = I129::of(n);
		let d = I129::of(d);
		let negative = n.negative != d.negative;
		multiply_by_rational_with_rounding(n.value, Self::DIV.unique_saturated_into(), d.value, Rounding::from_signed(SignedRounding::Minor, negative))
			.and_then(|value| from_i129(I129 { value, negative }))
			.map(Self::from_inner)
	}
	fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> {
		let rhs = I129::of(n);
		let lhs = I129::of(self.into_inner());
		let negative = lhs.negative != rhs.negative;
		multiply_by_rational_with_rounding(lhs.value, rhs.value, Self::DIV.unique_saturated_into(), Rounding::from_signed(SignedRounding::Minor, negative))
			.and_then(|value| from_i129(I129 { value, negative }))
	}
	fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N {
		self.checked_mul_int(n).unwrap_or_else(|| to_bound(self.into_inner(), n))
	}
	fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> {
		let rhs = I129::of(d);
		let lhs = I129::of(self.into_inner());
		let negative = lhs.negative != rhs.negative;
		lhs.value.checked_div(rhs.value)
			.and_then(|n| n.checked_div(Self::DIV.unique_saturated_into()))
			.and_then(|value| from_i129(I129 { value, negative }))
	}
	fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N {
		if d == N::zero() { panic!("attempt to divide by zero") }
		self.checked_div_int(d).unwrap_or_else(|| to_bound(self.into_inner(), d))
	}
	fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N {
		if self.is_negative() && n > N::zero() {
			n.saturating_sub(Self::zero().saturating_sub(self).saturating_mul_int(n))
		} else {
			self.saturating_mul_int(n).saturating_add(n)
		}
	}
	fn saturating_abs(self) -> Self {
		let inner = self.into_inner();
		if inner >= Self::Inner::zero() { self } else { Self::from_inner(inner.checked_neg().unwrap_or_else(Self::Inner::max_value)) }
	}
	fn reciprocal(self) -> Option<Self> { Self::one().checked_div(&self) }
	fn is_one(&self) -> bool { *self == Self::one() }
	fn is_positive(self) -> bool { self.into_inner() > Self::Inner::zero() }
	fn is_negative(self) -> bool { self.into_inner() < Self::Inner::zero() }
	fn trunc(self) -> Self {
		self.into_inner().checked_div(&Self::DIV).expect("never")
			.checked_mul(&Self::DIV).map(Self::from_inner).expect("never")
	}
	fn frac(self) -> Self {
		let integer = self.trunc();
		let fractional = self.saturating_sub(integer);
		if integer == Self::zero() { fractional } else { fractional.saturating_abs() }
	}
	fn ceil(self) -> Self {
		if self.is_negative() { self.trunc() }
		else if self.frac() == Self::zero() { self }
		else { self.saturating_add(Self::one()).trunc() }
	}
	fn floor(self) -> Self {
		if self.is_negative() { self.saturating_sub(Self::one()).trunc() } else { self.trunc() }
	}
	fn round(self) -> Self {
		let n = self.frac().saturating_mul(Self::saturating_from_integer(10u8 as u128));
		if n < Self::saturating_from_integer(5u8 as u128) { self.trunc() }
		else if self.is_positive() { self.saturating_add(Self::one()).trunc() }
		else { self.saturating_sub(Self::one()).trunc() }
	}
}

macro_rules! implement_fixed {
	($name:ident, $inner:ty, $signed:tt, $div:tt) => {
		#[derive(Encode, Decode, CompactAs, Default, Copy, Clone, MaxEncodedLen, PartialEq, Eq, PartialOrd, Ord, TypeInfo, Hash)]
		pub struct $name($inner);
		impl From<$inner> for $name { fn from(int: $inner) -> Self { $name::saturating_from_integer(int) } }
		impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for $name {
			fn from(r: (N, D)) -> Self { $name::saturating_from_rational(r.0, r.1) }
		}
		impl FixedPointNumber for $name {
			type Inner = $inner;
			const DIV: Self::Inner = $div;
			const SIGNED: bool = $signed;
			fn from_inner(inner: Self::Inner) -> Self { Self(inner) }
			fn into_inner(self) -> Self::Inner { self.0 }
		}
		impl $name {
			pub const DIV: $inner = $div;
			pub const fn from_inner(inner: $inner) -> Self { Self(inner) }
			pub const fn into_inner(self) -> $inner { self.0 }
			pub const fn from_u32(n: u32) -> Self { Self((n as $inner) * $div) }
			pub const fn zero() -> Self { Self(0) }
			pub const fn one() -> Self { Self($div) }
			pub fn from_float(x: f64) -> Self { Self((x * (<Self as FixedPointNumber>::DIV as f64)) as $inner) }
			pub fn to_float(self) -> f64 { self.0 as f64 / <Self as FixedPointNumber>::DIV as f64 }
			// The inherent arithmetic rounds to nearest (ties down), unlike the `Checked*` trait impls.
			pub fn const_checked_mul(self, other: Self) -> Option<Self> { self.const_checked_mul_with_rounding(other, SignedRounding::NearestPrefLow) }
			pub fn const_checked_mul_with_rounding(self, other: Self, rounding: SignedRounding) -> Option<Self> {
				let (lhs, rhs) = (I129::of(self.0), I129::of(other.0));
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, rhs.value, $div as u128, Rounding::from_signed(rounding, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
			pub fn const_checked_div(self, other: Self) -> Option<Self> { self.checked_rounding_div(other, SignedRounding::NearestPrefLow) }
			pub fn checked_rounding_div(self, other: Self, rounding: SignedRounding) -> Option<Self> {
				if other.0 == 0 { return None; }
				let (lhs, rhs) = (I129::of(self.0), I129::of(other.0));
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, $div as u128, rhs.value, Rounding::from_signed(rounding, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
			pub const fn add(self, rhs: Self) -> Self { Self(self.0 + rhs.0) }
			pub const fn sub(self, rhs: Self) -> Self { Self(self.0 - rhs.0) }
			pub fn mul(self, rhs: Self) -> Self { self.const_checked_mul(rhs).unwrap_or_else(|| panic!("attempt to multiply with overflow")) }
			pub fn div(self, rhs: Self) -> Self {
				if rhs.0 == 0 { panic!("attempt to divide by zero") }
				self.const_checked_div(rhs).unwrap_or_else(|| panic!("attempt to divide with overflow or NaN"))
			}
			/// Nearest, ties down; panics on overflow.
			pub const fn from_rational(a: u128, b: u128) -> Self {
				if b == 0 { panic!("attempt to divide by zero in from_rational") }
				match $crate::helpers_128bit::mul_div_nearest(a, $div as u128, b) {
					Some(v) if v <= <$inner>::MAX as u128 => Self(v as $inner),
					_ => panic!("overflow in from_rational"),
				}
			}
			pub fn from_rational_with_rounding(a: u128, b: u128, rounding: Rounding) -> Self {
				if b == 0 { panic!("attempt to divide by zero in from_rational") }
				match multiply_by_rational_with_rounding(a, Self::DIV as u128, b, rounding) {
					Some(v) => <$inner>::try_from(v).map(Self).unwrap_or_else(|_| panic!("overflow in from_rational")),
					None => panic!("overflow in from_rational"),
				}
			}
			pub fn try_into_perthing<P: PerThing>(self) -> Result<P, P> {
				if self < <Self as Zero>::zero() { Err(P::zero()) }
				else if self > <Self as One>::one() { Err(P::one()) }
				else { Ok(perthing_of::<P>(self.0 as u128, $div as u128)) }
			}
			pub fn into_clamped_perthing<P: PerThing>(self) -> P {
				match self.try_into_perthing() { Ok(p) | Err(p) => p }
			}
			/// Square root, rounding down.
			pub fn sqrt(self) -> Self {
				self.try_sqrt().expect("Inner value does not fit")
			}
			pub fn try_sqrt(self) -> Option<Self> {
				if self.0 < (0 as $inner) { return None; }
				use primitive_types::U256;
				let v = (U256::from(self.0 as u128) * U256::from($div as u128)).integer_sqrt();
				<$inner>::try_from(v.low_u128()).ok().map(Self)
			}
		}
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self { Self(self.0.saturating_add(rhs.0)) }
			fn saturating_sub(self, rhs: Self) -> Self { Self(self.0.saturating_sub(rhs.0)) }
			fn saturating_mul(self, rhs: Self) -> Self { self.checked_mul(&rhs).unwrap_or_else(|| to_bound(self.0, rhs.0)) }
			fn saturating_pow(self, exp: usize) -> Self {
				if exp == 0 { return Self::saturating_from_integer(1 as $inner); }
				let exp = exp as u32;
				let msb_pos = 32 - exp.leading_zeros();
				let mut result = Self::saturating_from_integer(1 as $inner);
				let mut pow_val = self;
				for i in 0..msb_pos {
					if ((1 << i) & exp) > 0 { result = Saturating::saturating_mul(result, pow_val); }
					pow_val = Saturating::saturating_mul(pow_val, pow_val);
				}
				result
			}
		}
		impl ops::Add for $name { type Output = Self; fn add(self, rhs: Self) -> Self { Self(self.0.checked_add(rhs.0).expect("attempt to add with overflow")) } }
		impl ops::Sub for $name { type Output = Self; fn sub(self, rhs: Self) -> Self { Self(self.0.checked_sub(rhs.0).expect("attempt to subtract with overflow")) } }
		impl ops::Mul for $name { type Output = Self; fn mul(self, rhs: Self) -> Self { self.checked_mul(&rhs).unwrap_or_else(|| panic!("attempt to multiply with overflow")) } }
		impl ops::Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self {
				if rhs.0 == 0 { panic!("attempt to divide by zero") }
				self.checked_div(&rhs).unwrap_or_else(|| panic!("attempt to divide with overflow"))
			}
		}
		impl CheckedSub for $name { fn checked_sub(&self, rhs: &Self) -> Option<Self> { self.0.checked_sub(rhs.0).map(Self) } }
		impl CheckedAdd for $name { fn checked_add(&self, rhs: &Self) -> Option<Self> { self.0.checked_add(rhs.0).map(Self) } }
		impl CheckedDiv for $name {
			fn checked_div(&self, other: &Self) -> Option<Self> {
				if other.0 == 0 { return None; }
				let lhs = I129::of(self.0);
				let rhs = I129::of(other.0);
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, Self::DIV as u128, rhs.value, Rounding::from_signed(SignedRounding::Minor, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
		}
		impl CheckedMul for $name {
			fn checked_mul(&self, other: &Self) -> Option<Self> {
				let lhs = I129::of(self.0);
				let rhs = I129::of(other.0);
				let negative = lhs.negative != rhs.negative;
				multiply_by_rational_with_rounding(lhs.value, rhs.value, Self::DIV as u128, Rounding::from_signed(SignedRounding::Minor, negative))
					.and_then(|value| from_i129(I129 { value, negative })).map(Self)
			}
		}
		impl Bounded for $name { fn min_value() -> Self { Self(<$inner>::MIN) } fn max_value() -> Self { Self(<$inner>::MAX) } }
		impl Zero for $name { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
		impl One for $name { fn one() -> Self { Self($div) } }
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
				let div = Self::DIV;
				let integral = { let int = self.0 / div; let neg = Self::SIGNED && self.0 != 0 && int == 0 && self.0 < (0 as $inner).saturating_add(0); format!("{}{}", if neg { "-" } else { "" }, int) };
				let precision = 18usize.min(format!("{}", div).len() - 1);
				let fractional = { let weight = (self.0 % div) as i128; format!("{:0>width$}", weight.unsigned_abs(), width = precision) };
				write!(f, "{}({}.{})", stringify!($name), integral, fractional)
			}
		}
		impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
		impl std::str::FromStr for $name {
			type Err = &'static str;
			fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse::<$inner>().map(Self).map_err(|_| "invalid string input for fixed point number") }
		}
		impl serde::Serialize for $name { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.to_string()) } }
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				use std::str::FromStr;
				let s = <String as serde::Deserialize>::deserialize(d)?;
				$name::from_str(&s).map_err(serde::de::Error::custom)
			}
		}
		impl<P: PerThing> From<P> for $name where P::Inner: FixedPointOperand {
			fn from(p: P) -> Self { $name::saturating_from_rational(p.deconstruct(), P::ACCURACY) }
		}
	};
}
fn perthing_of<P: PerThing>(n: u128, d: u128) -> P {
	// `P::from_rational(n, d)`: both already at most `d` and reduced with the same factor rule.
	let max: u128 = P::ACCURACY.into();
	let factor = ((d + max - 1) / max).max(1);
	let q = d / factor;
	let p = n / factor;
	let part = multiply_by_rational_with_rounding(p, max, q, Rounding::Down).unwrap_or(max);
	P::from_parts(part.saturated_into::<u128>().unique_saturated_into_inner::<P>())
}
trait UsInner { fn unique_saturated_into_inner<P: PerThing>(self) -> P::Inner; }
impl UsInner for u128 {
	fn unique_saturated_into_inner<P: PerThing>(self) -> P::Inner { <P::Inner as crate::traits::UniqueSaturatedFrom<u128>>::unique_saturated_from(self) }
}
macro_rules! neg { ($($n:ident),*) => {$(
	impl ops::Neg for $n { type Output = Self; fn neg(self) -> Self { Self(-self.0) } }
	impl CheckedNeg for $n { fn checked_neg(&self) -> Option<Self> { self.0.checked_neg().map(Self) } }
)*} }
implement_fixed!(FixedI64, i64, true, 1_000_000_000);
implement_fixed!(FixedU64, u64, false, 1_000_000_000);
implement_fixed!(FixedI128, i128, true, 1_000_000_000_000_000_000);
implement_fixed!(FixedU128, u128, false, 1_000_000_000_000_000_000);
neg!(FixedI64, FixedI128);
impl CheckedNeg for FixedU128 { fn checked_neg(&self) -> Option<Self> { if self.0 == 0 { Some(*self) } else { None } } }
impl CheckedNeg for FixedU64 { fn checked_neg(&self) -> Option<Self> { if self.0 == 0 { Some(*self) } else { None } } }
pub trait EnsureFixedPointNumber: FixedPointNumber {
	fn ensure_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Result<Self, crate::ArithmeticError> {
		Self::checked_from_rational(n, d).ok_or_else(|| ensure_err(n < N::zero(), d < D::zero(), d.is_zero()))
	}
	fn ensure_mul_int<N: FixedPointOperand>(self, n: N) -> Result<N, crate::ArithmeticError> {
		self.checked_mul_int(n).ok_or_else(|| ensure_err(self < Self::zero(), n < N::zero(), false))
	}
	fn ensure_div_int<D: FixedPointOperand>(self, d: D) -> Result<D, crate::ArithmeticError> {
		self.checked_div_int(d).ok_or_else(|| ensure_err(self < Self::zero(), d < D::zero(), d.is_zero()))
	}
}
impl<T: FixedPointNumber> EnsureFixedPointNumber for T {}
fn ensure_err(a: bool, b: bool, zero: bool) -> crate::ArithmeticError {
	if zero { crate::ArithmeticError::DivisionByZero } else if a != b { crate::ArithmeticError::Underflow } else { crate::ArithmeticError::Overflow }
}
