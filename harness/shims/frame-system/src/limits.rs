use frame_support::dispatch::DispatchClass;
use frame_support::weights::Weight;
use sp_runtime::{Perbill, traits::Bounded};
#[derive(Clone, Debug)]
pub struct BlockLength { pub max: u32 }
impl Default for BlockLength { fn default() -> Self { Self { max: 5 * 1024 * 1024 } } }
impl BlockLength { pub fn max(m: u32) -> Self { Self { max: m } } pub fn max_with_normal_ratio(m: u32, _: Perbill) -> Self { Self { max: m } } }
#[derive(Clone, Debug)]
pub struct WeightsPerClass { pub base_extrinsic: Weight, pub max_extrinsic: Option<Weight>, pub max_total: Option<Weight>, pub reserved: Option<Weight> }
#[derive(Clone, Debug)]
pub struct BlockWeights { pub base_block: Weight, pub max_block: Weight, pub normal: WeightsPerClass, pub operational: WeightsPerClass, pub mandatory: WeightsPerClass }
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass { match c { DispatchClass::Normal => &self.normal, DispatchClass::Operational => &self.operational, DispatchClass::Mandatory => &self.mandatory } }
	pub fn get_mut(&mut self, c: DispatchClass) -> &mut WeightsPerClass { match c { DispatchClass::Normal => &mut self.normal, DispatchClass::Operational => &mut self.operational, DispatchClass::Mandatory => &mut self.mandatory } }
	pub fn simple_max(w: Weight) -> Self { Self::with_sensible_defaults(w, Perbill::from_percent(100)) }
	pub fn with_sensible_defaults(w: Weight, normal: Perbill) -> Self {
		let n = Weight::from_parts(normal * w.ref_time(), normal * w.proof_size());
		let c = |m: Option<Weight>| WeightsPerClass { base_extrinsic: frame_support::weights::constants::ExtrinsicBaseWeight::get(), max_extrinsic: m, max_total: m, reserved: None };
		Self { base_block: frame_support::weights::constants::BlockExecutionWeight::get(), max_block: w, normal: c(Some(n)), operational: c(Some(w)), mandatory: c(None) }
	}
	pub fn builder() -> BlockWeightsBuilder { BlockWeightsBuilder { w: Self::default() } }
}
impl Default for BlockWeights { fn default() -> Self { Self::with_sensible_defaults(Weight::from_parts(2_000_000_000_000, u64::MAX), Perbill::from_percent(75)) } }
pub struct BlockWeightsBuilder { w: BlockWeights }
impl BlockWeightsBuilder {
	pub fn base_block(mut self, b: Weight) -> Self { self.w.base_block = b; self }
	pub fn for_class(mut self, c: impl OneOrMany<DispatchClass>, f: impl Fn(&mut WeightsPerClass)) -> Self { for c in c.all() { f(self.w.get_mut(c)) } self }
	pub fn avg_block_initialization(self, _: Perbill) -> Self { self }
	pub fn build_or_panic(self) -> BlockWeights { self.w }
	pub fn build(self) -> Result<BlockWeights, ()> { Ok(self.w) }
}
#[allow(unused)] fn _b<T: Bounded>(_: T) {}
pub trait OneOrMany<T> { fn all(self) -> Vec<T>; }
impl OneOrMany<DispatchClass> for DispatchClass { fn all(self) -> Vec<DispatchClass> { vec![self] } }
impl OneOrMany<DispatchClass> for &'static [DispatchClass] { fn all(self) -> Vec<DispatchClass> { self.to_vec() } }
