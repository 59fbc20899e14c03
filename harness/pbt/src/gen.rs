//! Shared generators: log-uniform magnitudes, boundary values.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

/// Log-uniform over [lo, hi] (both ends included now and then); shrinks towards `lo`.
pub fn mag(lo: u128, hi: u128) -> BoxedStrategy<u128> {
	assert!(lo <= hi);
	let lo_b = 128 - lo.max(1).leading_zeros();
	let hi_b = 128 - hi.max(1).leading_zeros();
	let body = (lo_b..=hi_b).prop_flat_map(move |bits| {
		let l = if bits == 0 { 0 } else { 1u128 << (bits - 1) }.max(lo);
		let h = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }.min(hi);
		let (l, h) = if l > h { (lo, hi) } else { (l, h) };
		l..=h
	});
	prop_oneof![1 => Just(lo), 20 => body, 1 => Just(hi)].boxed()
}
/// Permill-style parts with the edge values over-represented.
pub fn permill_parts() -> BoxedStrategy<u32> {
	prop_oneof![2 => Just(0u32), 1 => Just(1_000_000u32), 1 => Just(1u32), 6 => 0u32..=50_000, 4 => 0u32..=1_000_000].boxed()
}
pub fn any_u128() -> BoxedStrategy<u128> { mag(0, u128::MAX) }
