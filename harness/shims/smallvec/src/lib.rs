//! Stand-in: a plain vector.
#[doc(hidden)] pub extern crate alloc;
#[macro_export] macro_rules! smallvec { ($($t:tt)*) => { ::std::vec![$($t)*] } }
pub type SmallVec<A> = Vec<<A as Array>::Item>;
pub trait Array { type Item; } impl<T, const N: usize> Array for [T; N] { type Item = T; }
