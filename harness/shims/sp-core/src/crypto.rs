use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize)]
pub struct AccountId32([u8; 32]);
impl AccountId32 {
	pub const fn new(b: [u8; 32]) -> Self { Self(b) }
	pub fn to_ss58check(&self) -> String { hex::encode(self.0) }
}
pub use self::traits::*;
mod traits {
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(data: &[u8]) -> Result<Self, ()> { Self::try_from(data) }
		fn to_raw_vec(&self) -> Vec<u8> { self.as_slice().to_vec() }
		fn as_slice(&self) -> &[u8] { self.as_ref() }
	}
	pub trait Ss58Codec {}
	pub trait UncheckedFrom<T> { fn unchecked_from(t: T) -> Self; }
	pub trait FromEntropy: Sized {}
}
impl ByteArray for AccountId32 { const LEN: usize = 32; }
impl std::fmt::Debug for AccountId32 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", hex::encode(self.0)) } }
impl std::fmt::Display for AccountId32 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", hex::encode(self.0)) } }
impl AsRef<[u8]> for AccountId32 { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for AccountId32 { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl AsRef<[u8; 32]> for AccountId32 { fn as_ref(&self) -> &[u8; 32] { &self.0 } }
impl From<[u8; 32]> for AccountId32 { fn from(b: [u8; 32]) -> Self { Self(b) } }
impl From<AccountId32> for [u8; 32] { fn from(b: AccountId32) -> Self { b.0 } }
impl From<primitive_types::H256> for AccountId32 { fn from(b: primitive_types::H256) -> Self { Self(b.0) } }
impl<'a> TryFrom<&'a [u8]> for AccountId32 { type Error = (); fn try_from(b: &'a [u8]) -> Result<Self, ()> { b.try_into().map(Self).map_err(|_| ()) } }
impl UncheckedFrom<[u8; 32]> for AccountId32 { fn unchecked_from(b: [u8; 32]) -> Self { Self(b) } }
impl UncheckedFrom<crate::H256> for AccountId32 { fn unchecked_from(b: crate::H256) -> Self { Self(b.0) } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Encode, Decode, MaxEncodedLen, TypeInfo, Debug)]
pub struct KeyTypeId(pub [u8; 4]);
