use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use crate::weights::Weight;
pub use sp_runtime::{DispatchError, DispatchResult, DispatchErrorWithPostInfo as _DEWPI};
pub use sp_runtime::traits::Dispatchable;
pub use crate::traits::{CallMetadata, GetCallMetadata, GetCallName, Callable, UnfilteredDispatchable, PalletInfo, OriginTrait, GetStorageVersion};
pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo {}
impl<T: codec::Codec + codec::EncodeLike + Clone + Eq + std::fmt::Debug + TypeInfo> Parameter for T {}
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;
pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default)]
pub enum Pays { #[default] Yes, No }
impl From<Pays> for PostDispatchInfo { fn from(p: Pays) -> Self { Self { actual_weight: None, pays_fee: p } } }
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default, PartialOrd, Ord)]
pub enum DispatchClass { #[default] Normal, Operational, Mandatory }
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] { &[Self::Normal, Self::Operational, Self::Mandatory] }
	pub fn non_mandatory() -> &'static [DispatchClass] { &[Self::Normal, Self::Operational] }
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchInfo { pub weight: Weight, pub class: DispatchClass, pub pays_fee: Pays }
pub trait GetDispatchInfo { fn get_dispatch_info(&self) -> DispatchInfo; }
impl GetDispatchInfo for () { fn get_dispatch_info(&self) -> DispatchInfo { Default::default() } }
#[derive(Clone, Copy, Eq, PartialEq, Default, Encode, Decode, Debug, TypeInfo)]
pub struct PostDispatchInfo { pub actual_weight: Option<Weight>, pub pays_fee: Pays }
impl PostDispatchInfo {
	pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight { info.weight - self.calc_actual_weight(info) }
	pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight { match self.actual_weight { Some(w) => w.min(info.weight), None => info.weight } }
	pub fn pays_fee(&self, info: &DispatchInfo) -> Pays { if info.pays_fee == Pays::No || self.pays_fee == Pays::No { Pays::No } else { Pays::Yes } }
}
impl From<()> for PostDispatchInfo { fn from(_: ()) -> Self { Default::default() } }
impl From<Option<Weight>> for PostDispatchInfo { fn from(w: Option<Weight>) -> Self { Self { actual_weight: w, pays_fee: Default::default() } } }
impl From<(Option<Weight>, Pays)> for PostDispatchInfo { fn from(w: (Option<Weight>, Pays)) -> Self { Self { actual_weight: w.0, pays_fee: w.1 } } }

pub trait IntoDispatchInfo { fn into_dispatch_info(self) -> DispatchInfo; }
impl IntoDispatchInfo for Weight { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self, ..Default::default() } } }
impl IntoDispatchInfo for u64 { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() } } }
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) { fn into_dispatch_info(self) -> DispatchInfo { DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 } } }
#[derive(Eq, PartialEq, Clone, Encode, Decode, TypeInfo, MaxEncodedLen, Debug)]
pub enum RawOrigin<AccountId> { Root, Signed(AccountId), None }
impl<A> From<Option<A>> for RawOrigin<A> { fn from(s: Option<A>) -> Self { match s { Some(w) => Self::Signed(w), None => Self::None } } }
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> { match self { Self::Signed(a) => Some(a), _ => None } }
}
pub trait WithPostDispatchInfo { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo; }
impl<T: Into<DispatchError>> WithPostDispatchInfo for T { fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo { DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() } } }
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, info: &DispatchInfo) -> Weight { match r { Ok(p) => p.calc_actual_weight(info), Err(e) => e.post_info.calc_actual_weight(info) } }
