//! Stand-in for `sp-core`: the parts the wrapped crates use.
pub use frame_support_procedural::RuntimeDebug;
pub use primitive_types::{H128, H160, H256, H512, U256, U512};
pub use codec::MaxEncodedLen;
pub mod bounded;
pub mod crypto;
pub mod hashing;
pub mod offchain;
pub use bounded::{BoundedSlice, BoundedVec, Get, TypedGet, ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
pub use bounded as bounded_;
pub mod bounded_vec { pub use crate::bounded::{BoundedSlice, BoundedVec}; }
pub mod weak_bounded_vec { pub use crate::bounded::WeakBoundedVec; }
pub type Bytes = Vec<u8>;
pub trait Hasher { type Out: AsRef<[u8]> + AsMut<[u8]>; fn hash(x: &[u8]) -> Self::Out; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Blake2Hasher;
impl Hasher for Blake2Hasher { type Out = H256; fn hash(x: &[u8]) -> H256 { H256(hashing::blake2_256(x)) } }
pub use hashing::{blake2_128, blake2_256, keccak_256, twox_128, twox_256, twox_64};
pub type StorageData = Vec<u8>;
pub mod ecdsa {
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct Signature(pub [u8; 65]);
}
pub use hex;
#[macro_export]
macro_rules! parameter_types_dummy { () => {} }
pub mod storage {
	use std::collections::BTreeMap;
	#[derive(Default, Debug, Clone, PartialEq, Eq)]
	pub struct Storage { pub top: BTreeMap<Vec<u8>, Vec<u8>>, pub children_default: BTreeMap<Vec<u8>, Vec<u8>> }
}
pub mod traits {
	pub trait TypedGet { type Type; fn get() -> Self::Type; }
}
pub mod sr25519 { pub type Public = crate::crypto::AccountId32; }
pub mod ed25519 { pub type Public = crate::crypto::AccountId32; }
#[macro_export]
macro_rules! impl_maybe_marker {
	( $( $(#[$doc:meta])+ trait $n:ident: $($b:tt),+; )+ ) => { $( $(#[$doc])+ pub trait $n: $($b +)+ {} impl<T: $($b +)+> $n for T {} )+ };
}
/// Checks of the harness compile without any feature gates of their own.
#[macro_export]
macro_rules! defer { ($($c:tt)*) => { let _g = (); $($c)* } }
