pub mod primitives {
	pub type RelayChainBlockNumber = u32;
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, codec::Encode, codec::Decode, scale_info::TypeInfo, codec::MaxEncodedLen)]
	pub struct Id(u32);
	impl From<u32> for Id { fn from(x: u32) -> Self { Self(x) } }
	impl From<Id> for u32 { fn from(x: Id) -> Self { x.0 } }
	pub type Sibling = Id;
}
