//! Wide exact integers for the oracles.
#![allow(clippy::all)]
use uint::construct_uint;
construct_uint! { pub struct U1024(16); }
pub use primitive_types::{U128, U256, U512};

pub fn b(x: u128) -> U1024 { U1024::from(x) }
pub fn b256(x: U256) -> U1024 { let mut bytes = [0u8; 32]; x.to_little_endian(&mut bytes); U1024::from_little_endian(&bytes) }
pub fn b512(x: U512) -> U1024 { let mut bytes = [0u8; 64]; x.to_little_endian(&mut bytes); U1024::from_little_endian(&bytes) }
pub fn ceil_div(n: U1024, d: U1024) -> U1024 { let (q, r) = n.div_mod(d); if r.is_zero() { q } else { q + 1 } }
pub fn small(x: U1024) -> Option<u128> { if x > b(u128::MAX) { None } else { Some(x.low_u128()) } }
pub const E18: u128 = 1_000_000_000_000_000_000;
pub fn e18() -> U1024 { b(E18) }
/// |a-b|
pub fn diff(a: U1024, c: U1024) -> U1024 { if a > c { a - c } else { c - a } }
