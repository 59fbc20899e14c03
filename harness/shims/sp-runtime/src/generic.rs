use crate::traits;
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::marker::PhantomData;
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub enum DigestItem { PreRuntime([u8; 4], Vec<u8>), Other(Vec<u8>) }
pub type Digest = crate::Digest;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum MultiAddress<A, I> { Id(A), Index(I) }
impl<A, I> From<A> for MultiAddress<A, I> { fn from(a: A) -> Self { Self::Id(a) } }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(H))]
pub struct Header<N, H> { pub number: N, #[codec(skip)] p: PhantomData<H> }
impl<N: traits::BlockNumber, H: traits::Hash + Send + Sync> traits::Header for Header<N, H> {
	type Number = N;
	type Hash = <H as traits::Hash>::Output;
	type Hashing = H;
	fn new(number: N, _: Self::Hash, _: Self::Hash, _: Self::Hash, _: Digest) -> Self { Self { number, p: PhantomData } }
	fn number(&self) -> &N { &self.number }
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct Block<H, E> { pub header: H, pub extrinsics: Vec<E> }
impl<H: traits::Header, E: 'static> traits::Block for Block<H, E> { type Extrinsic = E; type Header = H; type Hash = <H as traits::Header>::Hash; }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
#[scale_info(skip_type_params(Address, Signature, Extra))]
pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> { pub function: Call, #[codec(skip)] p: PhantomData<(Address, Signature, Extra)> }
impl<A, C, S, E> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> { type Call = C; type SignaturePayload = (); fn is_signed(&self) -> Option<bool> { Some(false) } fn new(function: C, _: Option<()>) -> Option<Self> { Some(Self { function, p: PhantomData }) } }
pub struct SignedBlock<B>(pub B);
