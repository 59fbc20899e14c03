pub use crate::transaction_validity::*;
pub use sp_arithmetic::traits::*;
pub use sp_core::bounded::{Get, ConstBool, ConstI128, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8};
use codec::{Codec, Decode, Encode, EncodeLike, Input, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_core::H256;
use std::fmt::Debug;
pub use std::marker::PhantomData;
use crate::TypeId;
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str { fn from(_: BadOrigin) -> &'static str { "Bad origin" } }
#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub struct LookupError;
impl From<LookupError> for &'static str { fn from(_: LookupError) -> &'static str { "Can not lookup" } }
pub use sp_core::bounded::GetDefault;
macro_rules! mark { ($($n:ident),*) => {$( pub trait $n {} impl<T: ?Sized> $n for T {} )*} }
mark!(MaybeSerialize, MaybeSerializeDeserialize, MaybeDisplay, MaybeFromStr, MaybeRefUnwindSafe, Printable);
pub trait MaybeHash: std::hash::Hash {}
impl<T: std::hash::Hash> MaybeHash for T {}
pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
pub trait Convert<A, B> { fn convert(a: A) -> B; }
impl<A, B: Default> Convert<A, B> for () { fn convert(_: A) -> B { Default::default() } }
pub trait ConvertBack<A, B>: Convert<A, B> { fn convert_back(b: B) -> A; }
pub trait MaybeConvert<A, B> { fn maybe_convert(a: A) -> Option<B>; }
pub trait TryConvert<A, B> { fn try_convert(a: A) -> Result<B, A>; }
impl<A, B> TryConvert<A, B> for () { fn try_convert(a: A) -> Result<B, A> { Err(a) } }
pub trait MaybeEquivalence<A, B> { fn convert(a: &A) -> Option<B>; fn convert_back(b: &B) -> Option<A>; }
pub struct Identity;
impl<T> Convert<T, T> for Identity { fn convert(a: T) -> T { a } }
impl<T> ConvertBack<T, T> for Identity { fn convert_back(a: T) -> T { a } }
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto { fn convert(a: A) -> B { a.into() } }
pub trait Morph<A> { type Outcome; fn morph(a: A) -> Self::Outcome; }
pub trait Lookup { type Source; type Target; fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>; }
pub trait StaticLookup { type Source: Codec + Clone + PartialEq + Debug + TypeInfo + EncodeLike + 'static; type Target; fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>; fn unlookup(t: Self::Target) -> Self::Source; }
pub struct IdentityLookup<T>(std::marker::PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + TypeInfo + EncodeLike + 'static> StaticLookup for IdentityLookup<T> { type Source = T; type Target = T; fn lookup(x: T) -> Result<T, LookupError> { Ok(x) } fn unlookup(x: T) -> T { x } }
pub struct AccountIdLookup<A, I>(std::marker::PhantomData<(A, I)>);
impl<A: Codec + Clone + PartialEq + Debug + TypeInfo + EncodeLike + 'static, I: 'static> StaticLookup for AccountIdLookup<A, I> { type Source = A; type Target = A; fn lookup(x: A) -> Result<A, LookupError> { Ok(x) } fn unlookup(x: A) -> A { x } }
pub trait Hash: 'static + Debug + Clone + Eq + PartialEq + TypeInfo + sp_core::Hasher<Out = <Self as Hash>::Output> {
	type Output: Member + Debug + AsRef<[u8]> + AsMut<[u8]> + Copy + Default + Codec + EncodeLike + MaxEncodedLen + TypeInfo + Ord + std::hash::Hash + std::fmt::Display;
	fn hash(s: &[u8]) -> <Self as Hash>::Output;
	fn hash_of<S: Encode>(s: &S) -> <Self as Hash>::Output { Encode::using_encoded(s, <Self as Hash>::hash) }
}
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo)]
pub struct BlakeTwo256;
impl sp_core::Hasher for BlakeTwo256 { type Out = H256; fn hash(s: &[u8]) -> H256 { H256(sp_core::hashing::blake2_256(s)) } }
impl Hash for BlakeTwo256 { type Output = H256; fn hash(s: &[u8]) -> H256 { H256(sp_core::hashing::blake2_256(s)) } }
#[derive(PartialEq, Eq, Clone, Debug, TypeInfo)]
pub struct Keccak256;
impl sp_core::Hasher for Keccak256 { type Out = H256; fn hash(s: &[u8]) -> H256 { H256(sp_core::hashing::keccak_256(s)) } }
impl Hash for Keccak256 { type Output = H256; fn hash(s: &[u8]) -> H256 { H256(sp_core::hashing::keccak_256(s)) } }
pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> { pub fn new(d: &'a [u8]) -> Self { Self(d) } pub fn zeroes() -> Self { Self(&[]) } }
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(None) }
	fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> {
		let n = into.len().min(self.0.len());
		into[..n].copy_from_slice(&self.0[..n]);
		for i in &mut into[n..] { *i = 0; }
		self.0 = &self.0[n..];
		Ok(())
	}
}
struct InputCheck<'a>(&'a [u8]);
impl<'a> Input for InputCheck<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, codec::Error> { Ok(Some(self.0.len())) }
	fn read(&mut self, into: &mut [u8]) -> Result<(), codec::Error> { Input::read(&mut self.0, into) }
}
pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId { self.into_sub_account_truncating(&()) }
	fn try_into_account(&self) -> Option<AccountId> { self.try_into_sub_account(&()) }
	fn try_from_account(a: &AccountId) -> Option<Self> { Self::try_from_sub_account::<()>(a).map(|x| x.0) }
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T { (Id::TYPE_ID, self, sub).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("All byte sequences are valid `AccountIds`; qed") }
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let e = (Id::TYPE_ID, self, sub).encode();
		let a = T::decode(&mut TrailingZeroInput(&e)).ok()?;
		(e.len() <= a.encoded_size()).then_some(a)
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d.len() < 4 || d[0..4] != Id::TYPE_ID { return None; }
			let mut i = InputCheck(&d[4..]);
			let r = Decode::decode(&mut i).ok()?;
			if i.0.iter().all(|x| *x == 0) { Some(r) } else { None }
		})
	}
}
pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> crate::DispatchResultWithInfo<Self::PostInfo>;
}
pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
pub trait BlockNumberProvider {
	type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + Debug + MaxEncodedLen + Copy + EncodeLike + Default;
	fn current_block_number() -> Self::BlockNumber;
	fn set_block_number(_: Self::BlockNumber) {}
}
pub trait BlockNumber: Member + MaybeSerializeDeserialize + MaybeFromStr + Debug + std::hash::Hash + Copy + std::fmt::Display + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Codec + EncodeLike {}
impl<T: Member + MaybeSerializeDeserialize + MaybeFromStr + Debug + std::hash::Hash + Copy + std::fmt::Display + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Codec + EncodeLike> BlockNumber for T {}
pub trait Header: Clone + Send + Sync + Codec + Eq + Debug + TypeInfo + 'static {
	type Number: BlockNumber;
	type Hash: Member + Codec + Copy + Default + TypeInfo;
	type Hashing;
	fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: crate::Digest) -> Self;
	fn number(&self) -> &Self::Number;
}
pub trait HeaderProvider { type HeaderT: Header; }
pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + 'static {
	type Extrinsic;
	type Header: Header;
	type Hash;
}
impl<T: Block> HeaderProvider for T { type HeaderT = <T as Block>::Header; }
pub type HeaderFor<B> = <B as HeaderProvider>::HeaderT;
pub type NumberFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Number;
pub trait Extrinsic: Sized { type Call; type SignaturePayload; fn is_signed(&self) -> Option<bool> { None } fn new(_: Self::Call, _: Option<Self::SignaturePayload>) -> Option<Self> { None } }
pub trait ExtrinsicMetadata {}
pub trait ExtrinsicCall {}
pub trait Verify { type Signer: IdentifyAccount; }
pub trait IdentifyAccount { type AccountId; fn into_account(self) -> Self::AccountId; }
impl Verify for u64 { type Signer = U; }
pub struct U;
impl IdentifyAccount for U { type AccountId = u64; fn into_account(self) -> u64 { 0 } }
pub trait SignedExtension: Codec + Debug + Sync + Send + Clone + Eq + PartialEq {
	const IDENTIFIER: &'static str;
	type AccountId;
	type Call: Dispatchable;
	type AdditionalSigned: Encode;
	type Pre;
	fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
	fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
	fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity { Ok(ValidTransaction::default()) }
	fn post_dispatch(_pre: Option<Self::Pre>, _info: &DispatchInfoOf<Self::Call>, _post: &PostDispatchInfoOf<Self::Call>, _len: usize, _r: &crate::DispatchResult) -> Result<(), TransactionValidityError> { Ok(()) }
	fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> { Self::validate_unsigned(call, info, len).map(|_| ()) }
}
pub trait ValidateUnsigned {
	type Call;
	fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> { Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()) }
	fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
}
pub trait AsSystemOriginSigner<A> { fn as_system_origin_signer(&self) -> Option<&A>; }
pub trait OpaqueKeys {}
pub trait AppVerify {}
/// `Zero`-like default conversions used by weights.
pub struct ReduceBy<N>(std::marker::PhantomData<N>);
pub trait AccrueRewards {}
pub fn trailing<'a>(d: &'a [u8]) -> TrailingZeroInput<'a> { TrailingZeroInput(d) }
pub trait Randomness {}
pub use crate::Saturating as _Saturating;
