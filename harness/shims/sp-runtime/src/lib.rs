//! Stand-in for `sp-runtime`.
pub use sp_arithmetic::*;
pub use sp_arithmetic::per_things::*;
pub use sp_arithmetic::{helpers_128bit, ArithmeticError, FixedI128, FixedPointNumber, FixedPointOperand, FixedU128, PerThing, Perbill, Percent, Permill, Perquintill, Rounding};
pub use sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use sp_core::storage::Storage;
pub use sp_core::RuntimeDebug;
pub use sp_core::crypto::{AccountId32, KeyTypeId};
pub use sp_arithmetic::traits::{CheckedConversion, SaturatedConversion, Saturating};
pub use codec;
pub use scale_info;
pub use serde;
pub use sp_std;
pub use sp_core;
pub mod app_crypto { pub use sp_core; }
pub mod generic;
pub mod offchain;
pub mod testing;
pub mod traits;
pub mod transaction_validity;
pub use crate::transaction_validity as _tv;
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub mod bounded { pub use sp_core::bounded::*; }
pub trait TypeId { const TYPE_ID: [u8; 4]; }
impl TypeId for AccountId32 { const TYPE_ID: [u8; 4] = *b"acct"; }
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> { let mut s = Storage::default(); self.assimilate_storage(&mut s)?; Ok(s) }
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String>;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TransactionOutcome<R> { Commit(R), Rollback(R) }
impl<R> TransactionOutcome<R> { pub fn into_inner(self) -> R { match self { Self::Commit(r) | Self::Rollback(r) => r } } }

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct ModuleError { pub index: u8, pub error: [u8; 4], #[codec(skip)] pub message: Option<&'static str> }
impl PartialEq for ModuleError { fn eq(&self, o: &Self) -> bool { self.index == o.index && self.error == o.error } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TokenError { FundsUnavailable, OnlyProvider, BelowMinimum, CannotCreate, UnknownAsset, Frozen, Unsupported, CannotCreateHold, NotExpendable, Blocked }
impl From<TokenError> for &'static str { fn from(_: TokenError) -> &'static str { "token error" } }
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TransactionalError { LimitReached, NoLayer }
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, PartialEq, MaxEncodedLen)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError { pub fn stripped(self) -> Self { match self { DispatchError::Module(m) => DispatchError::Module(ModuleError { message: None, ..m }), o => o } } }
impl From<&'static str> for DispatchError { fn from(s: &'static str) -> Self { DispatchError::Other(s) } }
impl From<TokenError> for DispatchError { fn from(s: TokenError) -> Self { DispatchError::Token(s) } }
impl From<ArithmeticError> for DispatchError { fn from(s: ArithmeticError) -> Self { DispatchError::Arithmetic(s) } }
impl From<TransactionalError> for DispatchError { fn from(s: TransactionalError) -> Self { DispatchError::Transactional(s) } }
impl From<traits::BadOrigin> for DispatchError { fn from(_: traits::BadOrigin) -> Self { DispatchError::BadOrigin } }
impl From<traits::LookupError> for DispatchError { fn from(_: traits::LookupError) -> Self { DispatchError::CannotLookup } }
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::Arithmetic(a) => a.into(),
			DispatchError::Token(t) => t.into(),
			_ => "dispatch error",
		}
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> where Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable { pub post_info: Info, pub error: DispatchError }
impl<T, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> where T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default {
	fn from(e: E) -> Self { Self { post_info: Default::default(), error: e.into() } }
}
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type MultiAddress<A, I> = generic::MultiAddress<A, I>;
pub type ConsensusEngineId = [u8; 4];
pub type OpaqueExtrinsic = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum MultiSignature { Sr25519([u8; 32]) }
impl From<u64> for MultiSignature { fn from(_: u64) -> Self { Self::Sr25519([0; 32]) } }
impl traits::Verify for MultiSignature { type Signer = MultiSigner; }
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct MultiSigner(pub AccountId32);
impl traits::IdentifyAccount for MultiSigner { type AccountId = AccountId32; fn into_account(self) -> AccountId32 { self.0 } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct Digest { pub logs: Vec<DigestItem> }
pub type DigestItem = generic::DigestItem;
#[macro_export]
macro_rules! print { ($($t:tt)*) => {} }
pub fn print(_: impl std::fmt::Debug) {}
#[macro_export]
macro_rules! impl_opaque_keys { ($($t:tt)*) => {} }
#[macro_export]
macro_rules! bounded_vec { ($ ($values:expr),* $(,)?) => { { $crate::sp_std::vec![$($values),*].try_into().unwrap() } }; ( $value:expr ; $repetition:expr ) => { { $crate::sp_std::vec![$value ; $repetition].try_into().unwrap() } } }
#[macro_export]
macro_rules! assert_eq_error_rate { ($x:expr, $y:expr, $error:expr $(,)?) => { assert!(($x >= $crate::Saturating::saturating_sub($y, $error)) && ($x <= $crate::Saturating::saturating_add($y, $error)), "{:?} != {:?} (with error rate {:?})", $x, $y, $error); } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Either<L, R> { Left(L), Right(R) }
pub type TryRuntimeError = DispatchError;
