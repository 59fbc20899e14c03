//! The runtime's rules on who may make which call (`runtime/hydradx/src/{system,xcm,governance,assets}.rs`), taken out of these
//! files at build time, over the calls of all pallets that `construct_runtime!` lists.
#![allow(clippy::all)]
use frame_support::traits::{Contains, EnsureOrigin, Get};
pub use primitives::{AccountId, AssetId, Balance};
#[allow(unused_imports)] use sp_runtime::traits::AccountIdConversion;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::marker::PhantomData;

include!(concat!(env!("OUT_DIR"), "/calls.rs"));

pub struct Runtime;
thread_local! {
	static WORLD: RefCell<World> = RefCell::new(World::default());
}
#[derive(Clone, Debug, Default)]
pub struct World { pub hub: AssetId, pub listed: BTreeSet<AssetId>, pub paused: BTreeSet<RuntimeCallName> }
pub type RuntimeCallName = (String, String);
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R { WORLD.with(|w| f(&mut w.borrow_mut())) }
pub const POOL: [u8; 32] = [77; 32];
pub struct Omnipool;
impl Omnipool { pub fn protocol_account() -> AccountId { AccountId::new(POOL) } pub fn exists(a: AssetId) -> bool { world(|w| w.listed.contains(&a)) } }
pub struct HubAssetId;
impl Get<AssetId> for HubAssetId { fn get() -> AssetId { world(|w| w.hub) } }
/// the pallet and name of a call, from its form
pub fn name_of(c: &RuntimeCall) -> RuntimeCallName { let s = format!("{c:?}"); let (p, r) = s.split_once('(').unwrap(); (p.into(), r.split([' ', ')', '{']).next().unwrap().into()) }
/// what the crates offer besides calls
pub mod extra {
	use super::*;
	#[allow(unused_imports)] pub use super::none::*;
	pub mod pallet_omnipool { use super::*; pub trait Config { type HubAssetId: Get<AssetId>; } impl Config for Runtime { type HubAssetId = super::HubAssetId; } }
	pub mod pallet_transaction_pause {
		use super::*;
		pub struct PausedTransactionFilter<T>(PhantomData<T>);
		impl<T> Contains<RuntimeCall> for PausedTransactionFilter<T> { fn contains(c: &RuntimeCall) -> bool { let n = name_of(c); world(|w| w.paused.contains(&n)) } }
	}
	pub mod pallet_collective {
		use super::*;
		#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Instance1;
		#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Instance2;
		#[derive(Clone, PartialEq, Eq, Debug)] pub enum RawOrigin<A, I> { Members(u32, u32), Member(A), _Phantom(PhantomData<I>) }
		pub struct EnsureProportionAtLeast<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
		pub struct EnsureProportionMoreThan<A, I, const N: u32, const D: u32>(PhantomData<(A, I)>);
		pub struct EnsureMember<A, I>(PhantomData<(A, I)>);
		pub struct EnsureMembers<A, I, const N: u32>(PhantomData<(A, I)>);
		impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionAtLeast<A, I, N, D> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Members(n, m) if n * D >= N * m => Ok(()), r => Err(O::from(r)) }) } }
		impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32, const D: u32> EnsureOrigin<O> for EnsureProportionMoreThan<A, I, N, D> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Members(n, m) if n * D > N * m => Ok(()), r => Err(O::from(r)) }) } }
		impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I> EnsureOrigin<O> for EnsureMember<A, I> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Member(a) => Ok(a), r => Err(O::from(r)) }) } }
		impl<O: Into<Result<RawOrigin<A, I>, O>> + From<RawOrigin<A, I>>, A, I, const N: u32> EnsureOrigin<O> for EnsureMembers<A, I, N> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Members(n, _) if n >= N => Ok(()), r => Err(O::from(r)) }) } }
	}
}
use extra::pallet_collective::{Instance1, Instance2};
#[allow(non_camel_case_types)]
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum OriginCaller { system(::fsystem::RawOrigin<AccountId>), Council(extra::pallet_collective::RawOrigin<AccountId, Instance1>), TechnicalCommittee(extra::pallet_collective::RawOrigin<AccountId, Instance2>) }
pub type RuntimeOrigin = OriginCaller;
macro_rules! origin { ($v:ident, $t:ty) => {
	impl From<$t> for OriginCaller { fn from(x: $t) -> Self { OriginCaller::$v(x) } }
	impl From<OriginCaller> for Result<$t, OriginCaller> { fn from(x: OriginCaller) -> Self { match x { OriginCaller::$v(x) => Ok(x), x => Err(x) } } }
} }
origin!(system, ::fsystem::RawOrigin<AccountId>);
origin!(Council, extra::pallet_collective::RawOrigin<AccountId, Instance1>);
origin!(TechnicalCommittee, extra::pallet_collective::RawOrigin<AccountId, Instance2>);

/// what the files see of one another
pub mod rules {
	#![allow(unused_imports)]
	use super::*;
	pub mod governance { use super::super::*; use super::super::names::*; use super::super::extra; include!(concat!(env!("OUT_DIR"), "/governance.rs")); }
	pub mod system { use super::super::*; use super::super::names::*; use super::governance::*; include!(concat!(env!("OUT_DIR"), "/system.rs")); }
	pub mod xcm { use super::super::*; use super::super::names::*; use super::governance::*; use super::system::*; include!(concat!(env!("OUT_DIR"), "/xcm.rs")); }
	pub mod assets { use super::super::*; use super::super::names::*; use super::governance::*; use super::system::*; include!(concat!(env!("OUT_DIR"), "/assets.rs")); }
}
/// every place where the runtime says who may do something
pub fn doors() -> Vec<(&'static str, fn(RuntimeOrigin) -> bool)> {
	use rules::{assets::*, governance::*, system::*, xcm::*};
	macro_rules! d { ($($n:ident)*) => { vec![$((stringify!($n), (|o| $n::try_origin(o).is_ok()) as fn(RuntimeOrigin) -> bool)),*] } }
	let mut v = d!(CollatorUpdate IdentityForce IdentityRegistrar IdentityUsernames PaymentCurrencies PauseUpdate TrieControl XcmpController XcmSovereign XcmAdmin
		TreasuryApprove TreasuryReject PreimageManager SchedulerSchedule CouncilSetMembers TechSetMembers DemExternal DemExternalMajority DemExternalDefault DemSubmit DemFastTrack DemInstant DemCancellation DemBlacklist DemCancelProposal DemVeto
		VestingTransfer RegistryRegister RegistryUpdate UniquesForce OmnipoolAuthority OmnipoolTechnical BreakerTechnical OracleAuthority DusterBlacklist OmnipoolLmCreate XykLmCreate DcaTechnical RouterTechnical StableAuthority BondsIssue StakingAuthority LbpCreate ReferralsAuthority);
	v.push(("TreasurySpend", |o| <TreasurySpend as EnsureOrigin<RuntimeOrigin>>::try_origin(o).is_ok()));
	v.push(("UniquesCreate", |o| <UniquesCreate as frame_support::traits::EnsureOriginWithArg<RuntimeOrigin, u128>>::try_origin(o, &0).is_ok()));
	v
}
