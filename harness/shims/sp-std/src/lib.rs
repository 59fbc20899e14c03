//! Stand-in for `sp-std`: re-exports of `std` under the paths the runtime code uses.
pub use std::*;
pub mod prelude {
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq, Reverse};
	pub use std::convert::{TryFrom, TryInto};
	pub use std::iter::IntoIterator;
	pub use std::vec;
	pub use std::vec::Vec;
}
/// `sp_std::if_std!`
#[macro_export]
macro_rules! if_std { ( $( $code:tt )* ) => { $( $code )* } }
/// `sp_std::map!`
#[macro_export]
macro_rules! map {
	($( $name:expr => $value:expr ),* $(,)? ) => ( vec![ $( ( $name, $value ) ),* ].into_iter().collect() );
}
pub struct Writer<F: FnMut(&str)>(F);
