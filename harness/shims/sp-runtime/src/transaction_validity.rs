use codec::{Decode, Encode};
use scale_info::TypeInfo;
pub type TransactionPriority = u64;
pub type TransactionLongevity = u64;
pub type TransactionTag = Vec<u8>;
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum InvalidTransaction { Call, Payment, Future, Stale, BadProof, AncientBirthBlock, ExhaustsResources, Custom(u8), BadMandatory, MandatoryValidation, BadSigner }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum UnknownTransaction { CannotLookup, NoUnsignedValidator, Custom(u8) }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum TransactionValidityError { Invalid(InvalidTransaction), Unknown(UnknownTransaction) }
impl From<InvalidTransaction> for TransactionValidityError { fn from(e: InvalidTransaction) -> Self { Self::Invalid(e) } }
impl From<UnknownTransaction> for TransactionValidityError { fn from(e: UnknownTransaction) -> Self { Self::Unknown(e) } }
impl From<TransactionValidityError> for &'static str { fn from(_: TransactionValidityError) -> &'static str { "transaction validity error" } }
pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
pub enum TransactionSource { InBlock, Local, External }
#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
pub struct ValidTransaction { pub priority: TransactionPriority, pub requires: Vec<TransactionTag>, pub provides: Vec<TransactionTag>, pub longevity: TransactionLongevity, pub propagate: bool }
impl Default for ValidTransaction { fn default() -> Self { Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true } } }
impl From<InvalidTransaction> for TransactionValidity { fn from(e: InvalidTransaction) -> Self { Err(e.into()) } }
impl ValidTransaction { pub fn with_tag_prefix(p: &'static str) -> ValidTransactionBuilder { ValidTransactionBuilder { prefix: Some(p), validity: Default::default() } } }
#[derive(Default, Clone, Debug)]
pub struct ValidTransactionBuilder { prefix: Option<&'static str>, validity: ValidTransaction }
impl ValidTransactionBuilder {
	pub fn priority(mut self, p: u64) -> Self { self.validity.priority = p; self }
	pub fn longevity(mut self, p: u64) -> Self { self.validity.longevity = p; self }
	pub fn propagate(mut self, p: bool) -> Self { self.validity.propagate = p; self }
	pub fn and_requires(mut self, t: impl Encode) -> Self { self.validity.requires.push(match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }); self }
	pub fn and_provides(mut self, t: impl Encode) -> Self { self.validity.provides.push(match self.prefix { Some(p) => (p, t).encode(), None => t.encode() }); self }
	pub fn build(self) -> TransactionValidity { Ok(self.validity) }
}
