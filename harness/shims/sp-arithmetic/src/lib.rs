//! Stand-in for substrate's `sp-arithmetic` (not vendored in this sandbox).
//! Written to the published semantics of the crate at the version the runtime pins;
//! validated by running the repository's own math and pallet unit tests against it.
pub mod fixed_point;
pub mod helpers_128bit;
pub mod per_things;
pub mod rational;
pub mod traits;

pub use fixed_point::{FixedI128, FixedI64, FixedPointNumber, FixedPointOperand, FixedU128, FixedU64};
pub use per_things::{
	InnerOf, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding, SignedRounding, UpperOf,
};
pub use rational::{MultiplyRational, Rational128};
pub use traits as _traits_reexport;

use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

/// Arithmetic errors.
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}
