use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_arithmetic::traits::{SaturatedConversion, Saturating, Zero};
use sp_arithmetic::Perbill;
use crate::traits::Get;
use std::marker::PhantomData;
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Weight { #[codec(compact)] ref_time: u64, #[codec(compact)] proof_size: u64 }
impl From<u64> for Weight { fn from(x: u64) -> Self { Weight::from_parts(x, 0) } }
macro_rules! pw { ($($n:ident $f:ident),*) => {$( pub const fn $n(self, r: u64) -> Self { Self { ref_time: self.ref_time.$f(r), proof_size: self.proof_size.$f(r) } } )*} }
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self { Self { ref_time, proof_size } }
	pub const fn from_all(v: u64) -> Self { Self { ref_time: v, proof_size: v } }
	pub const fn zero() -> Self { Self { ref_time: 0, proof_size: 0 } }
	pub const fn ref_time(&self) -> u64 { self.ref_time }
	pub const fn proof_size(&self) -> u64 { self.proof_size }
	pub fn ref_time_mut(&mut self) -> &mut u64 { &mut self.ref_time }
	pub fn proof_size_mut(&mut self) -> &mut u64 { &mut self.proof_size }
	pub const fn without_proof_size(&self) -> Self { Self { ref_time: self.ref_time, proof_size: 0 } }
	pub const fn without_ref_time(&self) -> Self { Self { ref_time: 0, proof_size: self.proof_size } }
	pub const fn add_ref_time(&self, t: u64) -> Self { Self { ref_time: self.ref_time + t, proof_size: self.proof_size } }
	pub const fn add_proof_size(&self, t: u64) -> Self { Self { ref_time: self.ref_time, proof_size: self.proof_size + t } }
	pub const fn sub_ref_time(&self, t: u64) -> Self { Self { ref_time: self.ref_time - t, proof_size: self.proof_size } }
	pub const fn sub_proof_size(&self, t: u64) -> Self { Self { ref_time: self.ref_time, proof_size: self.proof_size - t } }
	pub fn checked_accrue(&mut self, r: Self) -> Option<()> { self.checked_add(&r).map(|x| *self = x) }
	pub fn checked_reduce(&mut self, r: Self) -> Option<()> { self.checked_sub(&r).map(|x| *self = x) }
	pub fn set_ref_time(mut self, t: u64) -> Self { self.ref_time = t; self }
	pub fn set_proof_size(mut self, t: u64) -> Self { self.proof_size = t; self }
	pub const fn saturating_add(self, r: Self) -> Self { Self { ref_time: self.ref_time.saturating_add(r.ref_time), proof_size: self.proof_size.saturating_add(r.proof_size) } }
	pub const fn saturating_sub(self, r: Self) -> Self { Self { ref_time: self.ref_time.saturating_sub(r.ref_time), proof_size: self.proof_size.saturating_sub(r.proof_size) } }
	pw!(saturating_mul saturating_mul, saturating_div saturating_div);
	pub const fn saturating_pow(self, e: u32) -> Self { Self { ref_time: self.ref_time.saturating_pow(e), proof_size: self.proof_size.saturating_pow(e) } }
	pub fn saturating_accrue(&mut self, a: Self) { *self = self.saturating_add(a) }
	pub fn saturating_reduce(&mut self, a: Self) { *self = self.saturating_sub(a) }
	pub const fn checked_add(&self, r: &Self) -> Option<Self> { match (self.ref_time.checked_add(r.ref_time), self.proof_size.checked_add(r.proof_size)) { (Some(a), Some(b)) => Some(Self { ref_time: a, proof_size: b }), _ => None } }
	pub const fn checked_sub(&self, r: &Self) -> Option<Self> { match (self.ref_time.checked_sub(r.ref_time), self.proof_size.checked_sub(r.proof_size)) { (Some(a), Some(b)) => Some(Self { ref_time: a, proof_size: b }), _ => None } }
	pub const fn checked_mul(self, r: u64) -> Option<Self> { match (self.ref_time.checked_mul(r), self.proof_size.checked_mul(r)) { (Some(a), Some(b)) => Some(Self { ref_time: a, proof_size: b }), _ => None } }
	pub const fn checked_div(self, r: u64) -> Option<Self> { match (self.ref_time.checked_div(r), self.proof_size.checked_div(r)) { (Some(a), Some(b)) => Some(Self { ref_time: a, proof_size: b }), _ => None } }
	pub fn checked_div_per_component(self, o: &Self) -> Option<u64> {
		let mut all = u64::MAX;
		if o.ref_time != 0 { all = self.ref_time / o.ref_time; }
		if o.proof_size != 0 { all = all.min(self.proof_size / o.proof_size); }
		if all == u64::MAX { None } else { Some(all) }
	}
	pub const fn mul(self, r: u64) -> Self { Self { ref_time: self.ref_time * r, proof_size: self.proof_size * r } }
	pub const fn div(self, r: u64) -> Self { Self { ref_time: self.ref_time / r, proof_size: self.proof_size / r } }
	pub fn min(&self, o: Self) -> Self { Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) } }
	pub fn max(&self, o: Self) -> Self { Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) } }
	pub fn add(self, r: &Self) -> Self { Self { ref_time: self.ref_time + r.ref_time, proof_size: self.proof_size + r.proof_size } }
	pub const fn all_gt(self, o: Self) -> bool { self.ref_time > o.ref_time && self.proof_size > o.proof_size }
	pub const fn all_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time && self.proof_size >= o.proof_size }
	pub const fn all_lt(self, o: Self) -> bool { self.ref_time < o.ref_time && self.proof_size < o.proof_size }
	pub const fn all_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time && self.proof_size <= o.proof_size }
	pub const fn any_gt(self, o: Self) -> bool { self.ref_time > o.ref_time || self.proof_size > o.proof_size }
	pub const fn any_gte(self, o: Self) -> bool { self.ref_time >= o.ref_time || self.proof_size >= o.proof_size }
	pub const fn any_lt(self, o: Self) -> bool { self.ref_time < o.ref_time || self.proof_size < o.proof_size }
	pub const fn any_lte(self, o: Self) -> bool { self.ref_time <= o.ref_time || self.proof_size <= o.proof_size }
	pub const fn any_eq(self, o: Self) -> bool { self.ref_time == o.ref_time || self.proof_size == o.proof_size }
}
impl Zero for Weight { fn zero() -> Self { Self::zero() } fn is_zero(&self) -> bool { self == &Self::zero() } }
impl std::ops::Add for Weight { type Output = Self; fn add(self, r: Self) -> Self { Weight { ref_time: self.ref_time + r.ref_time, proof_size: self.proof_size + r.proof_size } } }
impl std::ops::Sub for Weight { type Output = Self; fn sub(self, r: Self) -> Self { Weight { ref_time: self.ref_time - r.ref_time, proof_size: self.proof_size - r.proof_size } } }
impl std::ops::AddAssign for Weight { fn add_assign(&mut self, o: Self) { *self = *self + o } }
impl std::ops::SubAssign for Weight { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
impl std::iter::Sum for Weight { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Weight::zero(), |a, b| a + b) } }
macro_rules! m { ($($t:ty),*) => {$(
	impl std::ops::Mul<Weight> for $t { type Output = Weight; fn mul(self, b: Weight) -> Weight { b * self as u64 } }
)*} }
m!(u8, u16, u32, u64);
impl<T: Copy> std::ops::Mul<T> for Weight where u64: std::ops::Mul<T, Output = u64> { type Output = Self; fn mul(self, b: T) -> Self { Weight { ref_time: self.ref_time * b, proof_size: self.proof_size * b } } }
impl<T: Copy> std::ops::Div<T> for Weight where u64: std::ops::Div<T, Output = u64> { type Output = Self; fn div(self, b: T) -> Self { Weight { ref_time: self.ref_time / b, proof_size: self.proof_size / b } } }
impl std::ops::Mul<Weight> for Perbill { type Output = Weight; fn mul(self, b: Weight) -> Weight { Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size } } }
impl std::fmt::Display for Weight { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size) } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight { pub read: u64, pub write: u64 }
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r), 0) }
	pub const fn writes(self, w: u64) -> Weight { Weight::from_parts(self.write.saturating_mul(w), 0) }
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight { Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0) }
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	crate::parameter_types! {
		pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 25_000 * 1_000, write: 100_000 * 1_000 };
		pub const ParityDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 8_000 * 1_000, write: 50_000 * 1_000 };
		pub const ExtrinsicBaseWeight: Weight = Weight::from_parts(113_638 * 1_000, 0);
		pub const BlockExecutionWeight: Weight = Weight::from_parts(453_383 * 1_000, 0);
	}
}
pub trait WeightToFee { type Balance: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned; fn weight_to_fee(w: &Weight) -> Self::Balance; }
pub struct IdentityFee<T>(PhantomData<T>);
impl<T: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned> WeightToFee for IdentityFee<T> { type Balance = T; fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()) } }
pub struct ConstantMultiplier<T, M>(PhantomData<(T, M)>);
impl<T: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned, M: Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(w: &Weight) -> T { T::saturated_from(w.ref_time()).saturating_mul(M::get()) }
}
pub struct NoFee<T>(PhantomData<T>);
impl<T: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned> WeightToFee for NoFee<T> { type Balance = T; fn weight_to_fee(_: &Weight) -> T { T::zero() } }
#[derive(Clone, Encode, Decode, TypeInfo)]
pub struct WeightToFeeCoefficient<B> { pub coeff_integer: B, pub coeff_frac: Perbill, pub negative: bool, pub degree: u8 }
impl<B: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned> WeightToFeeCoefficient<B> {
	fn saturating_eval(&self, mut result: B, x: B) -> B where Perbill: std::ops::Mul<B, Output = B> {
		let mut p = B::one();
		for _ in 0..self.degree { p = p.saturating_mul(x); }
		let frac = self.coeff_frac * p;
		let integer = self.coeff_integer.saturating_mul(p);
		if self.negative { result = result.saturating_sub(frac).saturating_sub(integer); } else { result = result.saturating_add(frac).saturating_add(integer); }
		result
	}
}
pub type WeightToFeeCoefficients<T> = Vec<WeightToFeeCoefficient<T>>;
pub trait WeightToFeePolynomial { type Balance: sp_arithmetic::traits::BaseArithmetic + From<u32> + Copy + sp_arithmetic::traits::Unsigned; fn polynomial() -> WeightToFeeCoefficients<Self::Balance>; }
impl<T: WeightToFeePolynomial> WeightToFee for T where Perbill: std::ops::Mul<T::Balance, Output = T::Balance> {
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance { let x = T::Balance::saturated_from(w.ref_time()); T::polynomial().iter().fold(T::Balance::zero(), |a, c| c.saturating_eval(a, x)) }
}
#[allow(unused)] fn _s(_: impl Saturating) {}
pub struct WeightMeter { consumed: Weight, limit: Weight }
impl WeightMeter {
	pub fn new() -> Self { Self { consumed: Weight::zero(), limit: Weight::MAX } }
	pub fn with_limit(limit: Weight) -> Self { Self { consumed: Weight::zero(), limit } }
	pub fn consumed(&self) -> Weight { self.consumed }
	pub fn limit(&self) -> Weight { self.limit }
	pub fn remaining(&self) -> Weight { self.limit.saturating_sub(self.consumed) }
	pub fn can_consume(&self, w: Weight) -> bool { self.consumed.checked_add(&w).map_or(false, |t| t.all_lte(self.limit)) }
	pub fn try_consume(&mut self, w: Weight) -> Result<(), ()> { if self.can_consume(w) { self.consumed = self.consumed + w; Ok(()) } else { Err(()) } }
	pub fn consume(&mut self, w: Weight) { self.consumed.saturating_accrue(w) }
}
