use crate::helpers_128bit::multiply_by_rational_with_rounding;
use crate::Rounding;
use std::cmp::Ordering;

#[derive(Clone, Copy, Default, Debug, Eq)]
pub struct Rational128(u128, u128);
impl Rational128 {
	pub fn zero() -> Self { Self(0, 1) }
	pub fn one() -> Self { Self(1, 1) }
	pub fn is_zero(&self) -> bool { self.0 == 0 }
	pub fn from(n: u128, d: u128) -> Self { Self(n, d.max(1)) }
	pub fn from_unchecked(n: u128, d: u128) -> Self { Self(n, d) }
	pub fn n(&self) -> u128 { self.0 }
	pub fn d(&self) -> u128 { self.1 }
	pub fn to_den(self, den: u128) -> Option<Self> {
		if den == self.1 { Some(self) } else {
			multiply_by_rational_with_rounding(self.0, den, self.1, Rounding::NearestPrefDown).map(|n| Self(n, den))
		}
	}
}
impl PartialOrd for Rational128 { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rational128 {
	fn cmp(&self, o: &Self) -> Ordering {
		use primitive_types::U256;
		if self.1 == o.1 { return self.0.cmp(&o.0); }
		(U256::from(self.0) * U256::from(o.1)).cmp(&(U256::from(o.0) * U256::from(self.1)))
	}
}
impl PartialEq for Rational128 {
	fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal }
}
impl From<(u128, u128)> for Rational128 { fn from(x: (u128, u128)) -> Self { Self::from(x.0, x.1) } }

pub trait MultiplyRational: Sized {
	fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self>;
}
macro_rules! mr { ($($t:ty),*) => {$(
	impl MultiplyRational for $t {
		fn multiply_rational(self, n: Self, d: Self, r: Rounding) -> Option<Self> {
			multiply_by_rational_with_rounding(self as u128, n as u128, d as u128, r).and_then(|x| <$t>::try_from(x).ok())
		}
	}
)*}}
mr!(u8, u16, u32, u64, u128);
