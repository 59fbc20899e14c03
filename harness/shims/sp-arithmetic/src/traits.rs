use codec::HasCompact;
pub use num_traits::{
	checked_pow, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr,
	CheckedSub, One, Signed, Unsigned, Zero,
};
pub use crate::ArithmeticError;
use num_traits::Pow;
use std::ops::*;

pub trait IntegerSquareRoot: Sized {
	fn integer_sqrt(&self) -> Self { self.integer_sqrt_checked().expect("cannot calculate square root of negative number") }
	fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! isq_u { ($($t:ty),*) => {$( impl IntegerSquareRoot for $t {
	fn integer_sqrt_checked(&self) -> Option<Self> { Some(crate::helpers_128bit::sqrt(*self as u128) as $t) } } )*} }
isq_u!(u8, u16, u32, u64, u128, usize);
macro_rules! isq_i { ($($t:ty),*) => {$( impl IntegerSquareRoot for $t {
	fn integer_sqrt_checked(&self) -> Option<Self> { if *self < 0 { None } else { Some(crate::helpers_128bit::sqrt(*self as u128) as $t) } } } )*} }
isq_i!(i8, i16, i32, i64, i128);
impl IntegerSquareRoot for primitive_types::U256 {
	fn integer_sqrt_checked(&self) -> Option<Self> { Some(primitive_types::U256::integer_sqrt(self)) }
}

pub trait BaseArithmetic:
	From<u8> + Zero + One + IntegerSquareRoot
	+ Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
	+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
	+ Rem<Self, Output = Self> + RemAssign<Self>
	+ Shl<u32, Output = Self> + Shr<u32, Output = Self>
	+ CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + CheckedNeg
	+ Ensure + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone
	+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32>
	+ TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}
impl<T> BaseArithmetic for T where T:
	From<u8> + Zero + One + IntegerSquareRoot
	+ Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self>
	+ Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self>
	+ Rem<Self, Output = Self> + RemAssign<Self>
	+ Shl<u32, Output = Self> + Shr<u32, Output = Self>
	+ CheckedShl + CheckedShr + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + CheckedNeg
	+ Ensure + Saturating + PartialOrd<Self> + Ord + Bounded + HasCompact + Sized + Clone
	+ TryFrom<u8> + TryInto<u8> + TryFrom<u16> + TryInto<u16> + TryFrom<u32> + TryInto<u32>
	+ TryFrom<u64> + TryInto<u64> + TryFrom<u128> + TryInto<u128> + TryFrom<usize> + TryInto<usize>
	+ UniqueSaturatedFrom<u8> + UniqueSaturatedInto<u8> + UniqueSaturatedFrom<u16> + UniqueSaturatedInto<u16>
	+ UniqueSaturatedFrom<u32> + UniqueSaturatedInto<u32> + UniqueSaturatedFrom<u64> + UniqueSaturatedInto<u64>
	+ UniqueSaturatedFrom<u128> + UniqueSaturatedInto<u128>
{
}

pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

pub trait MultiplyArg: AtLeast8BitUnsigned + Clone + UniqueSaturatedInto<u64> {}
impl<T: AtLeast8BitUnsigned + Clone> MultiplyArg for T {}
pub trait ReciprocalArg: AtLeast8BitUnsigned + Clone {}
impl<T: AtLeast8BitUnsigned + Clone> ReciprocalArg for T {}
pub trait RationalArg: AtLeast8BitUnsigned + Clone {}
impl<T: AtLeast8BitUnsigned + Clone> RationalArg for T {}

pub trait UniqueSaturatedFrom<T: Sized>: Sized {
	fn unique_saturated_from(t: T) -> Self;
}
pub trait UniqueSaturatedInto<T: Sized>: Sized {
	fn unique_saturated_into(self) -> T;
}
impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
	fn unique_saturated_from(t: T) -> Self { S::try_from(t).unwrap_or_else(|_| Bounded::max_value()) }
}
impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
	fn unique_saturated_into(self) -> T { self.try_into().unwrap_or_else(|_| Bounded::max_value()) }
}

pub trait Saturating {
	fn saturating_add(self, rhs: Self) -> Self;
	fn saturating_sub(self, rhs: Self) -> Self;
	fn saturating_mul(self, rhs: Self) -> Self;
	fn saturating_pow(self, exp: usize) -> Self;
	fn saturating_less_one(self) -> Self where Self: One, Self: Sized { self.saturating_sub(One::one()) }
	fn saturating_plus_one(self) -> Self where Self: One, Self: Sized { self.saturating_add(One::one()) }
	fn saturating_inc(&mut self) where Self: One {
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(One::one());
	}
	fn saturating_dec(&mut self) where Self: One {
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(One::one());
	}
	fn saturating_accrue(&mut self, amount: Self) where Self: One {
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_add(amount);
	}
	fn saturating_reduce(&mut self, amount: Self) where Self: One {
		let mut o = Self::one();
		std::mem::swap(&mut o, self);
		*self = o.saturating_sub(amount);
	}
}
impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
	fn saturating_add(self, o: Self) -> Self { <Self as num_traits::Saturating>::saturating_add(self, o) }
	fn saturating_sub(self, o: Self) -> Self { <Self as num_traits::Saturating>::saturating_sub(self, o) }
	fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).unwrap_or_else(|| {
			if (self < T::zero()) != (o < T::zero()) { Bounded::min_value() } else { Bounded::max_value() }
		})
	}
	fn saturating_pow(self, exp: usize) -> Self {
		let neg = self < T::zero() && exp % 2 != 0;
		checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
	}
}

pub trait SaturatedConversion {
	fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) }
	fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) }
}
impl<T: Sized> SaturatedConversion for T {}

pub trait CheckedConversion {
	fn checked_from<T>(t: T) -> Option<Self> where Self: TryFrom<T>, Self: Sized { <Self as TryFrom<T>>::try_from(t).ok() }
	fn checked_into<T>(self) -> Option<T> where Self: TryInto<T>, Self: Sized { <Self as TryInto<T>>::try_into(self).ok() }
}
impl<T: Sized> CheckedConversion for T {}

pub trait Scale<Other> {
	type Output;
	fn mul(self, other: Other) -> Self::Output;
	fn div(self, other: Other) -> Self::Output;
	fn rem(self, other: Other) -> Self::Output;
}

fn err_of<T: PartialOrd + Zero>(a: &T, b: &T) -> ArithmeticError {
	// negative results underflow, positive ones overflow
	if (*a < T::zero()) != (*b < T::zero()) { ArithmeticError::Underflow } else { ArithmeticError::Overflow }
}
pub trait EnsureAdd: CheckedAdd + PartialOrd + Zero + Copy {
	fn ensure_add(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_add(&v).ok_or_else(|| if v < Self::zero() { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
	}
}
impl<T: CheckedAdd + PartialOrd + Zero + Copy> EnsureAdd for T {}
pub trait EnsureSub: CheckedSub + PartialOrd + Zero + Copy {
	fn ensure_sub(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_sub(&v).ok_or_else(|| if v < Self::zero() { ArithmeticError::Overflow } else { ArithmeticError::Underflow })
	}
}
impl<T: CheckedSub + PartialOrd + Zero + Copy> EnsureSub for T {}
pub trait EnsureMul: CheckedMul + PartialOrd + Zero + Copy {
	fn ensure_mul(self, v: Self) -> Result<Self, ArithmeticError> { self.checked_mul(&v).ok_or_else(|| err_of(&self, &v)) }
}
impl<T: CheckedMul + PartialOrd + Zero + Copy> EnsureMul for T {}
pub trait EnsureDiv: CheckedDiv + PartialOrd + Zero + Copy {
	fn ensure_div(self, v: Self) -> Result<Self, ArithmeticError> {
		self.checked_div(&v).ok_or_else(|| if v.is_zero() { ArithmeticError::DivisionByZero } else { err_of(&self, &v) })
	}
}
impl<T: CheckedDiv + PartialOrd + Zero + Copy> EnsureDiv for T {}
pub trait EnsureAddAssign: EnsureAdd {
	fn ensure_add_assign(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.ensure_add(v)?; Ok(()) }
}
impl<T: EnsureAdd> EnsureAddAssign for T {}
pub trait EnsureSubAssign: EnsureSub {
	fn ensure_sub_assign(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.ensure_sub(v)?; Ok(()) }
}
impl<T: EnsureSub> EnsureSubAssign for T {}
pub use crate::fixed_point::EnsureFixedPointNumber;
pub trait EnsureMulAssign: EnsureMul {
	fn ensure_mul_assign(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.ensure_mul(v)?; Ok(()) }
}
impl<T: EnsureMul> EnsureMulAssign for T {}
pub trait EnsureDivAssign: EnsureDiv {
	fn ensure_div_assign(&mut self, v: Self) -> Result<(), ArithmeticError> { *self = self.ensure_div(v)?; Ok(()) }
}
impl<T: EnsureDiv> EnsureDivAssign for T {}
pub trait EnsureOp: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {}
impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOp for T {}
pub trait EnsureOpAssign: EnsureAddAssign + EnsureSubAssign + EnsureMulAssign + EnsureDivAssign {}
impl<T: EnsureAddAssign + EnsureSubAssign + EnsureMulAssign + EnsureDivAssign> EnsureOpAssign for T {}
pub trait Ensure {}
impl<T> Ensure for T {}
pub trait EnsureFrom<T: PartialOrd + Zero>: TryFrom<T> + PartialOrd + Zero + Copy {
	fn ensure_from(other: T) -> Result<Self, ArithmeticError> {
		let neg = other < T::zero();
		Self::try_from(other).map_err(|_| if neg { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
	}
}
impl<T: TryFrom<S> + PartialOrd + Zero + Copy, S: PartialOrd + Zero + Copy> EnsureFrom<S> for T {}
pub trait EnsureInto<T: PartialOrd + Zero + Copy>: TryInto<T> + PartialOrd + Zero + Copy {
	fn ensure_into(self) -> Result<T, ArithmeticError> {
		let neg = self < Self::zero();
		self.try_into().map_err(|_| if neg { ArithmeticError::Underflow } else { ArithmeticError::Overflow })
	}
}
impl<T: TryInto<S> + PartialOrd + Zero + Copy, S: PartialOrd + Zero + Copy> EnsureInto<S> for T {}

#[allow(dead_code)]
fn _pow_bound<T: Pow<usize, Output = T>>() {}
