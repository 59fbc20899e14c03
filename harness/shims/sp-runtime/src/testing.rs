use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub type Header = crate::generic::Header<u64, crate::traits::BlakeTwo256>;
#[derive(Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct UintAuthorityId(pub u64);
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
#[scale_info(skip_type_params(Extra))]
pub struct TestXt<Call, Extra> { pub signature: Option<(u64, Extra)>, pub call: Call }
impl<Call, Extra> TestXt<Call, Extra> { pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self { Self { call, signature } } }
impl<Call, Extra> crate::traits::Extrinsic for TestXt<Call, Extra> { type Call = Call; type SignaturePayload = (u64, Extra); fn is_signed(&self) -> Option<bool> { Some(self.signature.is_some()) } fn new(call: Call, signature: Option<(u64, Extra)>) -> Option<Self> { Some(Self { call, signature }) } }
