use crate::traits::{BaseArithmetic, Bounded, MultiplyArg, One, RationalArg, ReciprocalArg, Saturating, Unsigned, UniqueSaturatedInto, UniqueSaturatedFrom, Zero};
use codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use num_traits::{Pow, SaturatingAdd, SaturatingSub};
use scale_info::TypeInfo;
use std::fmt;
use std::ops;

pub type InnerOf<P> = <P as PerThing>::Inner;
pub type UpperOf<P> = <P as PerThing>::Upper;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}
impl Rounding {
	pub const fn from_signed(rounding: SignedRounding, negative: bool) -> Self {
		use Rounding::*;
		use SignedRounding::*;
		match (rounding, negative) {
			(Low, true) | (Major, _) | (High, false) => Up,
			(High, true) | (Minor, _) | (Low, false) => Down,
			(NearestPrefMajor, _) | (NearestPrefHigh, false) | (NearestPrefLow, true) => NearestPrefUp,
			(NearestPrefMinor, _) | (NearestPrefLow, false) | (NearestPrefHigh, true) => NearestPrefDown,
		}
	}
}

pub trait PerThing:
	Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + Bounded + fmt::Debug
	+ ops::Div<Output = Self> + ops::Mul<Output = Self> + Pow<usize, Output = Self>
{
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + fmt::Debug + crate::MultiplyRational;
	type Upper: BaseArithmetic + Copy + From<Self::Inner> + TryInto<Self::Inner> + UniqueSaturatedInto<Self::Inner> + Unsigned + fmt::Debug + crate::MultiplyRational;
	const ACCURACY: Self::Inner;

	fn zero() -> Self { Self::from_parts(Self::Inner::zero()) }
	fn is_zero(&self) -> bool { self.deconstruct() == Self::Inner::zero() }
	fn one() -> Self { Self::from_parts(Self::ACCURACY) }
	fn is_one(&self) -> bool { self.deconstruct() == Self::ACCURACY }
	fn less_epsilon(self) -> Self {
		if self.is_zero() { self } else { Self::from_parts(self.deconstruct() - One::one()) }
	}
	fn plus_epsilon(self) -> Self {
		if self.is_one() { self } else { Self::from_parts(self.deconstruct() + One::one()) }
	}
	fn from_percent(x: Self::Inner) -> Self {
		let a: Self::Inner = x.min(100.into());
		let b: Self::Inner = 100.into();
		Self::from_rational::<Self::Inner>(a, b)
	}
	fn square(self) -> Self {
		let p = Self::Upper::from(self.deconstruct());
		let q = Self::Upper::from(Self::ACCURACY);
		Self::from_rational::<Self::Upper>(p * p, q * q)
	}
	fn left_from_one(self) -> Self { Self::one().saturating_sub(self) }
	fn mul_floor<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<Self::Inner>, Self::Inner: Into<N> {
		overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::Down)
	}
	fn mul_ceil<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<Self::Inner>, Self::Inner: Into<N> {
		overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::Up)
	}
	fn saturating_reciprocal_mul<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>, Self::Inner: Into<N> {
		saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::NearestPrefUp)
	}
	fn saturating_reciprocal_mul_floor<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>, Self::Inner: Into<N> {
		saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::Down)
	}
	fn saturating_reciprocal_mul_ceil<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<Self::Inner>, Self::Inner: Into<N> {
		saturating_reciprocal_mul::<N, Self>(b, self.deconstruct(), Rounding::Up)
	}
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
	fn from_float(x: f64) -> Self;
	fn from_rational<N>(p: N, q: N) -> Self where N: RationalArg + TryInto<Self::Inner> + TryInto<Self::Upper>, Self::Inner: Into<N> {
		Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or_else(|_| Self::one())
	}
	fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()> where N: RationalArg + TryInto<Self::Inner> + TryInto<Self::Upper>, Self::Inner: Into<N>;
}

fn rational_mul_correction<N, P>(x: N, numer: P::Inner, denom: P::Inner, rounding: Rounding) -> N
where N: MultiplyArg + UniqueSaturatedInto<P::Inner>, P: PerThing, P::Inner: Into<N> {
	let numer_upper = P::Upper::from(numer);
	let denom_n: N = denom.into();
	let denom_upper = P::Upper::from(denom);
	let rem = x.rem(denom_n);
	let rem_inner = <N as UniqueSaturatedInto<P::Inner>>::unique_saturated_into(rem);
	let rem_mul_upper = P::Upper::from(rem_inner) * numer_upper;
	let mut rem_mul_div_inner: P::Inner = (rem_mul_upper / denom_upper).unique_saturated_into();
	match rounding {
		Rounding::Down => {}
		Rounding::Up => {
			if rem_mul_upper % denom_upper > 0.into() { rem_mul_div_inner += 1.into(); }
		}
		Rounding::NearestPrefDown => {
			if rem_mul_upper % denom_upper > denom_upper / 2.into() { rem_mul_div_inner += 1.into(); }
		}
		Rounding::NearestPrefUp => {
			if rem_mul_upper % denom_upper >= denom_upper / 2.into() + denom_upper % 2.into() { rem_mul_div_inner += 1.into(); }
		}
	}
	rem_mul_div_inner.into()
}
fn overflow_prune_mul<N, P>(x: N, part: P::Inner, rounding: Rounding) -> N
where N: MultiplyArg + UniqueSaturatedInto<P::Inner>, P: PerThing, P::Inner: Into<N> {
	let part_n: N = part.into();
	let maximum: N = P::ACCURACY.into();
	let c = rational_mul_correction::<N, P>(x.clone(), part, P::ACCURACY, rounding);
	(x / maximum) * part_n + c
}
fn saturating_reciprocal_mul<N, P>(x: N, part: P::Inner, rounding: Rounding) -> N
where N: ReciprocalArg + UniqueSaturatedInto<P::Inner>, P: PerThing, P::Inner: Into<N> {
	let maximum: N = P::ACCURACY.into();
	let c = rational_mul_correction::<N, P>(x.clone(), P::ACCURACY, part, rounding);
	(x / part.into()).saturating_mul(maximum).saturating_add(c)
}
fn div_rounded<N: AtLeast>(n: N, d: N, r: Rounding) -> N {
	let mut o = n.clone() / d.clone();
	let rem = n % d.clone();
	let up = match r {
		Rounding::Up => !rem.is_zero(),
		Rounding::NearestPrefDown => rem > d / N::from(2u8),
		Rounding::NearestPrefUp => rem >= d.clone() / N::from(2u8) + d % N::from(2u8),
		Rounding::Down => false,
	};
	if up { o = o + N::one(); }
	o
}
use crate::traits::AtLeast8BitUnsigned as AtLeast;

macro_rules! implement_per_thing {
	($name:ident, $max:tt, $type:ty, $upper_type:ty) => {
		#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, MaxEncodedLen, TypeInfo, Default, Hash, serde::Serialize, serde::Deserialize)]
		pub struct $name($type);

		impl CompactAs for $name {
			type As = $type;
			fn encode_as(&self) -> &Self::As { &self.0 }
			fn decode_from(x: Self::As) -> Result<Self, codec::Error> { Ok(Self::from_parts(x)) }
		}
		impl From<codec::Compact<$name>> for $name {
			fn from(x: codec::Compact<$name>) -> $name { x.0 }
		}
		impl PerThing for $name {
			type Inner = $type;
			type Upper = $upper_type;
			const ACCURACY: Self::Inner = $max;
			fn deconstruct(self) -> Self::Inner { self.0 }
			fn from_parts(parts: Self::Inner) -> Self { Self(parts.min($max)) }
			fn from_float(x: f64) -> Self { Self::from_parts((x.max(0.).min(1.) * $max as f64) as Self::Inner) }
			fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
			where N: RationalArg + TryInto<Self::Inner> + TryInto<Self::Upper>, Self::Inner: Into<N> {
				if q.is_zero() { return Err(()); }
				if p > q { return Err(()); }
				let max_n: N = { let m: $type = $max; m.into() };
				let factor = div_rounded::<N>(q.clone(), max_n, Rounding::Up).max(One::one());
				let q_reduce: $type = div_rounded(q, factor.clone(), r).try_into().map_err(|_| "Failed to convert").expect("q / ceil(q/max) < max");
				let p_reduce: $type = div_rounded(p, factor, r).try_into().map_err(|_| "Failed to convert").expect("p / ceil(p/max) < max");
				let n = p_reduce as $upper_type * <$upper_type>::from($max as $type);
				let d = q_reduce as $upper_type;
				let part = div_rounded(n, d, r);
				Ok($name(part as $type))
			}
		}
		impl $name {
			pub const fn from_parts(parts: $type) -> Self { Self([parts, $max][(parts > $max) as usize]) }
			pub const fn from_percent(x: $type) -> Self { Self(([x, 100][(x > 100) as usize] as $upper_type * $max as $upper_type / 100) as $type) }
			pub const fn from_perthousand(x: $type) -> Self { let x = x as u128; let x = if x > 1000 { 1000 } else { x }; Self((x * $max as u128 / 1000) as $type) }
			pub const fn one() -> Self { Self::from_parts($max) }
			pub const fn is_one(&self) -> bool { self.0 == $max }
			pub const fn zero() -> Self { Self::from_parts(0) }
			pub const fn is_zero(&self) -> bool { self.0 == 0 }
			pub const fn deconstruct(self) -> $type { self.0 }
			pub fn square(self) -> Self { PerThing::square(self) }
			pub fn from_float(x: f64) -> Self { <Self as PerThing>::from_float(x) }
			#[deprecated]
			pub fn from_fraction(x: f64) -> Self { <Self as PerThing>::from_float(x) }
			pub fn from_rational<N>(p: N, q: N) -> Self
			where N: RationalArg + TryInto<$type> + TryInto<$upper_type>, $type: Into<N> { <Self as PerThing>::from_rational(p, q) }
			pub fn from_rational_with_rounding<N>(p: N, q: N, r: Rounding) -> Result<Self, ()>
			where N: RationalArg + TryInto<$type> + TryInto<$upper_type>, $type: Into<N> { <Self as PerThing>::from_rational_with_rounding(p, q, r) }
			pub fn mul_floor<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<$type>, $type: Into<N> { PerThing::mul_floor(self, b) }
			pub fn mul_ceil<N>(self, b: N) -> N where N: MultiplyArg + UniqueSaturatedInto<$type>, $type: Into<N> { PerThing::mul_ceil(self, b) }
			pub fn saturating_reciprocal_mul<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<$type>, $type: Into<N> { PerThing::saturating_reciprocal_mul(self, b) }
			pub fn saturating_reciprocal_mul_floor<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<$type>, $type: Into<N> { PerThing::saturating_reciprocal_mul_floor(self, b) }
			pub fn saturating_reciprocal_mul_ceil<N>(self, b: N) -> N where N: ReciprocalArg + UniqueSaturatedInto<$type>, $type: Into<N> { PerThing::saturating_reciprocal_mul_ceil(self, b) }
			pub fn int_div(self, b: Self) -> $type { self.0 / b.0 }
			pub fn int_mul(self, b: $type) -> Self { PerThing::from_parts(self.0.saturating_mul(b)) }
			pub fn less_epsilon(self) -> Self { PerThing::less_epsilon(self) }
			pub fn plus_epsilon(self) -> Self { PerThing::plus_epsilon(self) }
			pub fn left_from_one(self) -> Self { PerThing::left_from_one(self) }
		}
		impl Saturating for $name {
			fn saturating_add(self, rhs: Self) -> Self { Self::from_parts(self.0.saturating_add(rhs.0)) }
			fn saturating_sub(self, rhs: Self) -> Self { Self::from_parts(self.0.saturating_sub(rhs.0)) }
			fn saturating_mul(self, rhs: Self) -> Self { self * rhs }
			fn saturating_pow(self, exp: usize) -> Self { self.pow(exp) }
		}
		impl crate::traits::CheckedAdd for $name {
			fn checked_add(&self, rhs: &Self) -> Option<Self> {
				self.0.checked_add(rhs.0).map(|inner| if inner > $max { None } else { Some(Self(inner)) }).flatten()
			}
		}
		impl crate::traits::CheckedSub for $name {
			fn checked_sub(&self, v: &Self) -> Option<Self> { self.0.checked_sub(v.0).map(Self) }
		}
		impl crate::traits::CheckedMul for $name {
			fn checked_mul(&self, rhs: &Self) -> Option<Self> { Some(*self * *rhs) }
		}
		impl SaturatingAdd for $name { fn saturating_add(&self, v: &Self) -> Self { Self::from_parts(self.0.saturating_add(v.0)) } }
		impl SaturatingSub for $name { fn saturating_sub(&self, v: &Self) -> Self { Self::from_parts(self.0.saturating_sub(v.0)) } }
		impl Bounded for $name {
			fn min_value() -> Self { <Self as PerThing>::zero() }
			fn max_value() -> Self { <Self as PerThing>::one() }
		}
		impl ops::Mul for $name {
			type Output = Self;
			fn mul(self, rhs: Self) -> Self {
				let a = self.0 as $upper_type;
				let b = rhs.0 as $upper_type;
				let m = <$upper_type>::from($max as $type);
				let parts = a * b / m;
				Self::from_parts(parts as $type)
			}
		}
		impl Pow<usize> for $name {
			type Output = Self;
			fn pow(mut self, exp: usize) -> Self::Output {
				if exp == 0 || self.is_one() { return Self::one(); }
				let mut result = Self::one();
				let mut exp = exp;
				while exp > 0 {
					if exp % 2 != 0 { result = result * self; }
					self = self * self;
					exp /= 2;
				}
				result
			}
		}
		impl ops::Div for $name {
			type Output = Self;
			fn div(self, rhs: Self) -> Self {
				let p = self.0;
				let q = rhs.0;
				Self::from_rational(p, q)
			}
		}
		impl ops::Add for $name {
			type Output = Self;
			fn add(self, rhs: Self) -> Self { let inner = self.0.checked_add(rhs.0).expect("attempt to add with overflow"); debug_assert!(inner <= $max); Self(inner) }
		}
		impl ops::Sub for $name {
			type Output = Self;
			fn sub(self, rhs: Self) -> Self { Self(self.0.checked_sub(rhs.0).expect("attempt to subtract with overflow")) }
		}
		impl<N> ops::Mul<N> for $name where N: Clone + UniqueSaturatedInto<$type> + MultiplyArg + NotPerThing, $type: Into<N> {
			type Output = N;
			fn mul(self, b: N) -> Self::Output { overflow_prune_mul::<N, Self>(b, self.deconstruct(), Rounding::NearestPrefDown) }
		}
		impl<N> ops::Div<N> for $name where $type: TryFrom<N>, N: NotPerThing {
			type Output = Self;
			fn div(self, b: N) -> Self::Output {
				<$type>::try_from(b).map_or(Self::zero(), |d| Self::from_parts(self.0 / d))
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, fmt: &mut fmt::Formatter) -> fmt::Result {
				if $max == <$type>::max_value() {
					write!(fmt, "{}%", (self.0 as f64) / ($max as f64) * 100.0)
				} else {
					let units = self.0 / ($max / 100);
					let rest = self.0 % ($max / 100);
					write!(fmt, "{}", units)?;
					if rest > 0 { write!(fmt, ".{:0w$}", rest, w = 4)?; }
					write!(fmt, "%")
				}
			}
		}
		impl NotBaseArith for $name {}
	};
}
/// helper to keep the `Mul<Self>`/`Mul<N>` impls coherent
pub trait NotPerThing {}
macro_rules! npt { ($($t:ty),*) => {$(impl NotPerThing for $t {})*} }
npt!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize);
trait NotBaseArith {}

implement_per_thing!(Percent, 100u8, u8, u16);
implement_per_thing!(PerU16, 65535u16, u16, u32);
implement_per_thing!(Permill, 1_000_000u32, u32, u64);
implement_per_thing!(Perbill, 1_000_000_000u32, u32, u64);
implement_per_thing!(Perquintill, 1_000_000_000_000_000_000u64, u64, u128);
#[allow(unused_imports)]
use UniqueSaturatedFrom as _;
