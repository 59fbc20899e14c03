//! Stand-in for `frame-support`: enough of it, with the semantics of polkadot v1.7.2, to run the pallets natively.
extern crate self as frame_support;
pub use codec;
pub use scale_info;
pub use serde;
pub use sp_core;
pub use sp_io;
pub use sp_runtime;
pub use sp_std;
pub use sp_arithmetic;
pub use log;
pub use frame_support_procedural::{
	construct_runtime, derive_impl, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PalletError, PartialEqNoBound,
	RuntimeDebugNoBound,
};
pub use sp_core::RuntimeDebug;
pub use sp_runtime::{print, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, ConsensusEngineId, WeakBoundedVec};
pub mod dispatch;
pub mod hash;
pub mod storage;
pub mod traits;
pub mod weights;
pub use dispatch::Parameter;
pub use hash::*;
pub use storage::{storage_prefix, StoragePrefixedMap};
pub use sp_runtime::TypeId;
/// The `storage_alias` attribute picks these by name.
pub use storage::{StorageDoubleMap, StorageMap, StorageNMap, StorageValue};

pub mod __private { pub use codec; pub use scale_info; pub use sp_io; pub use sp_std; pub use sp_std::prelude::*; pub use log; }
pub mod error { pub use sp_runtime::traits::{BadOrigin, LookupError}; }
pub mod inherent {
	pub use sp_runtime::traits::{Block, Extrinsic};
	pub type InherentIdentifier = [u8; 8];
	#[derive(Default)] pub struct InherentData;
	pub trait ProvideInherent { }
}
pub mod unsigned { pub use sp_runtime::traits::ValidateUnsigned; pub use sp_runtime::transaction_validity::*; }
pub mod migrations { }
pub use storage::migration;
pub mod instances {
	macro_rules! i { ($($n:ident),*) => {$( #[derive(Clone, Copy, PartialEq, Eq, Debug, scale_info::TypeInfo)] pub struct $n; )*} }
	i!(Instance1, Instance2, Instance3, Instance4, Instance5, Instance6, Instance7, Instance8);
}

#[derive(codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo, Debug, Clone, Copy, PartialEq, Eq)]
pub enum Never {}
/// Stands for the event or origin of a pallet that has none.
pub struct NoPart<P>(Never, std::marker::PhantomData<P>);
impl<P> Clone for NoPart<P> { fn clone(&self) -> Self { match self.0 {} } }
impl<P> PartialEq for NoPart<P> { fn eq(&self, _: &Self) -> bool { match self.0 {} } }
impl<P> Eq for NoPart<P> {}
impl<P> std::fmt::Debug for NoPart<P> { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self.0 {} } }
impl<P> codec::Encode for NoPart<P> { fn encode(&self) -> Vec<u8> { match self.0 {} } }
impl<P> codec::EncodeLike for NoPart<P> {}
impl<P> codec::Decode for NoPart<P> { fn decode<I: codec::Input>(_: &mut I) -> Result<Self, codec::Error> { Err("uninhabited".into()) } }
impl<P> codec::MaxEncodedLen for NoPart<P> { fn max_encoded_len() -> usize { 0 } }
/// What a runtime needs to know of a pallet's types.
pub trait Parts { type Event; type Origin; }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, codec::Encode, codec::Decode, codec::MaxEncodedLen, scale_info::TypeInfo, Debug)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId { const TYPE_ID: [u8; 4] = *b"modl"; }

std::thread_local! { static DEFENSIVE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// How often code on this thread reached a state it calls impossible.
pub fn defensive_failures() -> u64 { DEFENSIVE.with(|d| d.get()) }
pub fn note_defensive(what: &str) {
	DEFENSIVE.with(|d| d.set(d.get() + 1));
	if cfg!(debug_assertions) { panic!("Defensive failure has been triggered!: {what}") }
}
pub fn note_corrupt(k: &[u8], e: &codec::Error) { DEFENSIVE.with(|d| d.set(d.get() + 1)); log::error!("corrupted state at {k:?}: {e}") }

#[macro_export]
macro_rules! defensive {
	() => { $crate::note_defensive("") };
	($error:expr $(,)?) => { $crate::note_defensive(&format!("{:?}", $error)) };
	($error:expr, $($proof:expr),+ $(,)?) => { $crate::note_defensive(&format!("{:?} {:?}", $error, ($($proof,)+))) };
}
#[macro_export]
macro_rules! defensive_assert { ($c:expr $(, $p:expr)* $(,)?) => { if !$c { $crate::defensive!("assertion failed", stringify!($c)); } } }
#[macro_export]
macro_rules! ensure { ($x:expr, $y:expr $(,)?) => {{ if !$x { return Err($y.into()); } }} }
#[macro_export]
macro_rules! fail { ($y:expr) => {{ return Err($y.into()); }} }
#[macro_export]
macro_rules! assert_noop { ($x:expr, $y:expr $(,)?) => { let h = $crate::sp_io::storage::root(1); $crate::assert_err!($x, $y); assert_eq!(h, $crate::sp_io::storage::root(1), "storage has been mutated"); } }
#[macro_export]
macro_rules! assert_storage_noop { ($x:expr) => { let h = $crate::sp_io::storage::root(1); $x; assert_eq!(h, $crate::sp_io::storage::root(1), "storage has been mutated"); } }
#[macro_export]
macro_rules! assert_err { ($x:expr, $y:expr $(,)?) => { assert_eq!($x, Err($y.into())); } }
#[macro_export]
macro_rules! assert_err_ignore_postinfo { ($x:expr, $y:expr $(,)?) => { $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y); } }
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => { let is = $x; match is { Ok(_) => (), _ => assert!(false, "Expected Ok(_). Got {:#?}", is) } };
	($x:expr, $y:expr $(,)?) => { assert_eq!($x, Ok($y)); };
}
#[macro_export]
macro_rules! parameter_types {
	($(#[$attr:meta])* $vis:vis const $name:ident $(< $($ty:ident),* >)?: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$attr])* $vis struct $name $(< $($ty),* >( $($crate::sp_std::marker::PhantomData<$ty>),* ))?;
		$crate::parameter_types!(IMPL_CONST $name, $type, $value $(, $($ty),*)?);
		$crate::parameter_types!($($rest)*);
	};
	($(#[$attr:meta])* $vis:vis $name:ident $(< $($ty:ident),* >)?: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$attr])* $vis struct $name $(< $($ty),* >( $($crate::sp_std::marker::PhantomData<$ty>),* ))?;
		$crate::parameter_types!(IMPL $name, $type, $value $(, $($ty),*)?);
		$crate::parameter_types!($($rest)*);
	};
	($(#[$attr:meta])* $vis:vis static $name:ident: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$attr])* $vis struct $name;
		impl $name {
			#[doc(hidden)] fn __cell<R>(f: impl FnOnce(&std::cell::RefCell<$type>) -> R) -> R { std::thread_local! { static V: std::cell::RefCell<$type> = std::cell::RefCell::new($value); } V.with(|v| f(v)) }
			#[allow(unused)] pub fn get() -> $type { Self::__cell(|v| v.borrow().clone()) }
			#[allow(unused)] pub fn set(t: $type) { Self::__cell(|v| *v.borrow_mut() = t) }
			#[allow(unused)] pub fn mutate<R, F: FnOnce(&mut $type) -> R>(f: F) -> R { let mut c = Self::get(); let r = f(&mut c); Self::set(c); r }
			#[allow(unused)] pub fn take() -> $type { let c = Self::get(); Self::set($value); c }
		}
		impl<_I: From<$type>> $crate::traits::Get<_I> for $name { fn get() -> _I { _I::from(Self::get()) } }
		impl $crate::traits::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		$crate::parameter_types!($($rest)*);
	};
	() => {};
	(IMPL_CONST $name:ident, $type:ty, $value:expr $(, $ty:ident)*) => {
		impl<$($ty),*> $name<$($ty),*> { #[allow(unused)] pub const fn get() -> $type { $value } }
		impl<_I: From<$type>, $($ty),*> $crate::traits::Get<_I> for $name<$($ty),*> { fn get() -> _I { _I::from(Self::get()) } }
		impl<$($ty),*> $crate::traits::TypedGet for $name<$($ty),*> { type Type = $type; fn get() -> $type { Self::get() } }
	};
	(IMPL $name:ident, $type:ty, $value:expr $(, $ty:ident)*) => {
		impl<$($ty),*> $name<$($ty),*> { #[allow(unused)] pub fn get() -> $type { $value } }
		impl<_I: From<$type>, $($ty),*> $crate::traits::Get<_I> for $name<$($ty),*> { fn get() -> _I { _I::from(Self::get()) } }
		impl<$($ty),*> $crate::traits::TypedGet for $name<$($ty),*> { type Type = $type; fn get() -> $type { Self::get() } }
	};
}
#[macro_export]
macro_rules! ord_parameter_types {
	($(#[$attr:meta])* $vis:vis const $name:ident: $type:ty = $value:expr; $($rest:tt)*) => {
		$(#[$attr])* $vis struct $name;
		$crate::parameter_types!(IMPL $name, $type, $value);
		impl $crate::traits::SortedMembers<$type> for $name { fn contains(t: &$type) -> bool { &$value == t } fn sorted_members() -> $crate::sp_std::prelude::Vec<$type> { vec![$value] } fn count() -> usize { 1 } }
		impl $crate::traits::Contains<$type> for $name { fn contains(t: &$type) -> bool { &$value == t } }
		$crate::ord_parameter_types!($($rest)*);
	};
	() => {};
}
pub mod pallet_prelude {
	pub use crate::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use crate::hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat};
	pub use crate::storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery};
	pub use crate::storage::{self as storage_};
	pub use crate::traits::{BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInstance, StorageVersion, TypedGet, UnfilteredDispatchable};
	pub use crate::weights::Weight;
	pub use crate::{ensure, defensive, fail, CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound, DefaultNoBound, RuntimeDebug, storage};
	pub use crate::inherent::{InherentData, InherentIdentifier, ProvideInherent};
	pub use codec::{Decode, Encode, MaxEncodedLen};
	pub use scale_info::TypeInfo;
	pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use sp_runtime::transaction_validity::{InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction};
	pub use sp_runtime::{BoundedVec, BoundedBTreeMap};
	pub use sp_std::marker::PhantomData;
}
