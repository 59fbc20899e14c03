pub use sp_runtime::traits::{AtLeast32Bit, Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Saturating, UniqueSaturatedFrom, UniqueSaturatedInto, Zero};
use std::ops::{Add, Div, Mul, Neg, Sub, AddAssign, SubAssign, MulAssign, DivAssign};
pub trait CheckedNeg: Sized { fn checked_neg(&self) -> Option<Self>; }
/// Integers that can be negative.
pub trait Signed: Sized + PartialEq + Copy + Neg<Output = Self> {
	fn checked_abs(&self) -> Option<Self>;
	fn abs(&self) -> Self;
	fn signum(&self) -> Self;
	fn is_positive(&self) -> bool;
	fn is_negative(&self) -> bool;
}
macro_rules! signed { ($($t:ty),*) => {$(
	impl Signed for $t {
		fn checked_abs(&self) -> Option<Self> { <$t>::checked_abs(*self) }
		fn abs(&self) -> Self { <$t>::saturating_abs(*self) }
		fn signum(&self) -> Self { <$t>::signum(*self) }
		fn is_positive(&self) -> bool { *self > 0 }
		fn is_negative(&self) -> bool { *self < 0 }
	}
	impl CheckedNeg for $t { fn checked_neg(&self) -> Option<Self> { <$t>::checked_neg(*self) } }
)*} }
signed!(i8, i16, i32, i64, i128, isize);
pub trait SimpleArithmetic: Zero + One + From<u8> + From<u16> + From<u32> + TryInto<u8> + TryInto<u16> + TryInto<u32> + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + CheckedMul + CheckedDiv + CheckedAdd + CheckedSub + PartialOrd<Self> + Ord + Bounded + Sized {}
impl<T: Zero + One + From<u8> + From<u16> + From<u32> + TryInto<u8> + TryInto<u16> + TryInto<u32> + Add<Self, Output = Self> + AddAssign<Self> + Sub<Self, Output = Self> + SubAssign<Self> + Mul<Self, Output = Self> + MulAssign<Self> + Div<Self, Output = Self> + DivAssign<Self> + CheckedMul + CheckedDiv + CheckedAdd + CheckedSub + PartialOrd<Self> + Ord + Bounded + Sized> SimpleArithmetic for T {}
