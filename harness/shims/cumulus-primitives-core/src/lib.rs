//! Stand-in for `cumulus-primitives-core`.
pub mod relay_chain { pub type Hash = sp_core::H256; pub type BlockNumber = u32; #[derive(Clone, Debug, PartialEq, Eq, Default)] pub struct HeadData(pub Vec<u8>); impl HeadData { pub fn hash(&self) -> Hash { sp_io::hashing::blake2_256(&self.0).into() } } }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct PersistedValidationData { pub parent_head: relay_chain::HeadData, pub relay_parent_number: u32, pub relay_parent_storage_root: sp_core::H256, pub max_pov_size: u32 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, codec::Encode, codec::Decode, scale_info::TypeInfo, codec::MaxEncodedLen)]
pub struct ParaId(pub u32);
impl From<ParaId> for u32 { fn from(x: ParaId) -> u32 { x.0 } }
impl From<u32> for ParaId { fn from(x: u32) -> Self { Self(x) } }
pub use staging_xcm::v4::prelude::*;
