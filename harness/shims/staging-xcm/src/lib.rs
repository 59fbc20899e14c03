//! Stand-in for `staging-xcm`: versions 3 and 4 (and a sliver of version 2) locations, assets and the asset-carrying instructions.
pub mod v3 {
	use codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub enum NetworkId { ByGenesis([u8; 32]), ByFork { block_number: u64, block_hash: [u8; 32] }, Polkadot, Kusama, Westend, Rococo, Wococo }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub enum Junction {
		Parachain(#[codec(compact)] u32), AccountId32 { network: Option<NetworkId>, id: [u8; 32] }, AccountIndex64 { network: Option<NetworkId>, #[codec(compact)] index: u64 }, AccountKey20 { network: Option<NetworkId>, key: [u8; 20] },
		PalletInstance(u8), GeneralIndex(#[codec(compact)] u128), GeneralKey { length: u8, data: [u8; 32] }, OnlyChild, Plurality { id: u8, part: u8 }, GlobalConsensus(NetworkId),
	}
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub enum Junctions { Here, X1(Junction), X2(Junction, Junction), X3(Junction, Junction, Junction), X4(Junction, Junction, Junction, Junction), X5(Junction, Junction, Junction, Junction, Junction), X6(Junction, Junction, Junction, Junction, Junction, Junction), X7(Junction, Junction, Junction, Junction, Junction, Junction, Junction), X8(Junction, Junction, Junction, Junction, Junction, Junction, Junction, Junction) }
	impl From<sp_core::bounded::BoundedVec<u8, sp_core::ConstU32<32>>> for Junction { fn from(v: sp_core::bounded::BoundedVec<u8, sp_core::ConstU32<32>>) -> Self { let mut data = [0; 32]; data[..v.len()].copy_from_slice(&v); Junction::GeneralKey { length: v.len() as u8, data } } }
	impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Junctions::X1(j) } }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
	pub struct MultiLocation { pub parents: u8, pub interior: Junctions }
	pub type Location = MultiLocation;
	impl TryFrom<crate::v4::Location> for MultiLocation { type Error = (); fn try_from(l: crate::v4::Location) -> Result<Self, ()> { use Junctions::*; Ok(Self { parents: l.parents, interior: match *l.interior.as_slice() { [] => Here, [a] => X1(a), [a, b] => X2(a, b), [a, b, c] => X3(a, b, c), [a, b, c, d] => X4(a, b, c, d), [a, b, c, d, e] => X5(a, b, c, d, e), [a, b, c, d, e, f] => X6(a, b, c, d, e, f), [a, b, c, d, e, f, g] => X7(a, b, c, d, e, f, g), [a, b, c, d, e, f, g, h] => X8(a, b, c, d, e, f, g, h), _ => return Err(()) } }) } }
	impl From<MultiLocation> for crate::v4::Location { fn from(l: MultiLocation) -> Self { use Junctions::*; Self { parents: l.parents, interior: match l.interior { Here => [].into(), X1(a) => [a].into(), X2(a, b) => [a, b].into(), X3(a, b, c) => [a, b, c].into(), X4(a, b, c, d) => [a, b, c, d].into(), X5(a, b, c, d, e) => [a, b, c, d, e].into(), X6(a, b, c, d, e, f) => [a, b, c, d, e, f].into(), X7(a, b, c, d, e, f, g) => [a, b, c, d, e, f, g].into(), X8(a, b, c, d, e, f, g, h) => [a, b, c, d, e, f, g, h].into() } } } }
	impl Default for MultiLocation { fn default() -> Self { Self { parents: 0, interior: Junctions::Here } } }
	impl MultiLocation { pub fn new(parents: u8, i: impl Into<Junctions>) -> Self { Self { parents, interior: i.into() } } pub const fn parent() -> Self { Self { parents: 1, interior: Junctions::Here } } pub const fn here() -> Self { Self { parents: 0, interior: Junctions::Here } } }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum AssetInstance { Undefined, Index(#[codec(compact)] u128), Array4([u8; 4]), Array8([u8; 8]), Array16([u8; 16]), Array32([u8; 32]) }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum Fungibility { Fungible(#[codec(compact)] u128), NonFungible(AssetInstance) }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub enum AssetId { Concrete(MultiLocation), Abstract([u8; 32]) }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
	pub struct MultiAsset { pub id: AssetId, pub fun: Fungibility }
	impl From<u128> for Fungibility { fn from(a: u128) -> Self { Fungibility::Fungible(a) } }
	impl From<AssetInstance> for Fungibility { fn from(a: AssetInstance) -> Self { Fungibility::NonFungible(a) } }
	impl From<MultiLocation> for AssetId { fn from(a: MultiLocation) -> Self { AssetId::Concrete(a) } }
	impl From<[u8; 32]> for AssetId { fn from(a: [u8; 32]) -> Self { AssetId::Abstract(a) } }
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for MultiAsset { fn from((id, fun): (A, B)) -> Self { Self { id: id.into(), fun: fun.into() } } }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, Default)]
	pub struct MultiAssets(Vec<MultiAsset>);
	impl MultiAssets {
		pub fn inner(&self) -> &Vec<MultiAsset> { &self.0 }
		pub fn into_inner(self) -> Vec<MultiAsset> { self.0 }
		pub fn len(&self) -> usize { self.0.len() }
		pub fn is_empty(&self) -> bool { self.0.is_empty() }
		pub fn from_sorted_and_deduplicated(r: Vec<MultiAsset>) -> Result<Self, ()> { if r.windows(2).all(|w| w[0] < w[1]) { Ok(Self(r)) } else { Err(()) } }
	}
	impl From<Vec<MultiAsset>> for MultiAssets { fn from(mut a: Vec<MultiAsset>) -> Self { a.sort(); a.dedup(); Self(a) } }
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum Instruction<Call> { WithdrawAsset(MultiAssets), ReserveAssetDeposited(MultiAssets), ReceiveTeleportedAsset(MultiAssets), ClearOrigin, ClearError, Transact(Vec<u8>, std::marker::PhantomData<Call>), BuyExecution { fees: MultiAsset, weight_limit: Option<u64> }, DepositAsset { beneficiary: MultiLocation } }
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	impl<C> Xcm<C> { pub fn first(&self) -> Option<&Instruction<C>> { self.0.first() } pub fn len(&self) -> usize { self.0.len() } }
	pub mod prelude { pub use super::{AssetId::{self, *}, AssetInstance, Fungibility::{self, *}, Instruction::{self, *}, Junction::{self, *}, Junctions::{self, *}, MultiAsset, MultiAssets, MultiLocation, NetworkId, Xcm}; }
}
pub mod v4 {
	//! Locations, assets and the whole instruction set of version 4 (data only; there is no executor).
	pub use crate::v3::{AssetInstance, Junction, NetworkId};
	pub use frame_support::weights::Weight;
	use std::sync::Arc;
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default)]
	pub enum Junctions { #[default] Here, X1(Arc<[Junction; 1]>), X2(Arc<[Junction; 2]>), X3(Arc<[Junction; 3]>), X4(Arc<[Junction; 4]>), X5(Arc<[Junction; 5]>), X6(Arc<[Junction; 6]>), X7(Arc<[Junction; 7]>), X8(Arc<[Junction; 8]>) }
	impl Junctions {
		pub fn as_slice(&self) -> &[Junction] { match self { Self::Here => &[], Self::X1(a) => &a[..], Self::X2(a) => &a[..], Self::X3(a) => &a[..], Self::X4(a) => &a[..], Self::X5(a) => &a[..], Self::X6(a) => &a[..], Self::X7(a) => &a[..], Self::X8(a) => &a[..] } }
		pub fn len(&self) -> usize { self.as_slice().len() }
		pub fn first(&self) -> Option<&Junction> { self.as_slice().first() }
		pub fn last(&self) -> Option<&Junction> { self.as_slice().last() }
		pub fn iter(&self) -> std::slice::Iter<'_, Junction> { self.as_slice().iter() }
	}
	impl From<Junction> for Junctions { fn from(j: Junction) -> Self { Self::X1(Arc::new([j])) } }
	impl From<[Junction; 0]> for Junctions { fn from(_: [Junction; 0]) -> Self { Self::Here } }
	macro_rules! arr { ($($n:literal $v:ident),*) => { $(impl From<[Junction; $n]> for Junctions { fn from(a: [Junction; $n]) -> Self { Self::$v(Arc::new(a)) } } impl From<[Junction; $n]> for Location { fn from(a: [Junction; $n]) -> Self { Self { parents: 0, interior: a.into() } } })* } }
	arr!(1 X1, 2 X2, 3 X3, 4 X4, 5 X5, 6 X6, 7 X7, 8 X8);
	pub type InteriorLocation = Junctions;
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug, Default)]
	pub struct Location { pub parents: u8, pub interior: Junctions }
	impl Location {
		pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self { Self { parents, interior: interior.into() } }
		pub const fn here() -> Self { Self { parents: 0, interior: Junctions::Here } }
		pub const fn parent() -> Self { Self { parents: 1, interior: Junctions::Here } }
		pub fn is_here(&self) -> bool { self.parents == 0 && self.interior == Junctions::Here }
		pub fn unpack(&self) -> (u8, &[Junction]) { (self.parents, self.interior.as_slice()) }
		pub fn parent_count(&self) -> u8 { self.parents }
		pub fn interior(&self) -> &Junctions { &self.interior }
		pub fn first_interior(&self) -> Option<&Junction> { self.interior.first() }
	}
	impl From<Junction> for Location { fn from(j: Junction) -> Self { Self { parents: 0, interior: j.into() } } }
	impl From<Junctions> for Location { fn from(interior: Junctions) -> Self { Self { parents: 0, interior } } }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub struct Parent;
	impl From<Parent> for Location { fn from(_: Parent) -> Self { Self::parent() } }
	impl From<(Parent, Junction)> for Location { fn from((_, j): (Parent, Junction)) -> Self { Self { parents: 1, interior: j.into() } } }
	impl From<(u8, Junction)> for Location { fn from((parents, j): (u8, Junction)) -> Self { Self { parents, interior: j.into() } } }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub enum Fungibility { Fungible(u128), NonFungible(AssetInstance) }
	impl From<u128> for Fungibility { fn from(a: u128) -> Self { Self::Fungible(a) } }
	impl From<AssetInstance> for Fungibility { fn from(a: AssetInstance) -> Self { Self::NonFungible(a) } }
	#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub enum WildFungibility { Fungible, NonFungible }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
	pub struct AssetId(pub Location);
	impl<T: Into<Location>> From<T> for AssetId { fn from(t: T) -> Self { Self(t.into()) } }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub struct Asset { pub id: AssetId, pub fun: Fungibility }
	impl Asset {
		pub fn is_fungible(&self, id: Option<AssetId>) -> bool { matches!(self.fun, Fungibility::Fungible(_)) && id.map_or(true, |i| i == self.id) }
		pub fn is_non_fungible(&self, id: Option<AssetId>) -> bool { matches!(self.fun, Fungibility::NonFungible(_)) && id.map_or(true, |i| i == self.id) }
	}
	impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset { fn from((id, fun): (A, B)) -> Self { Self { id: id.into(), fun: fun.into() } } }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug, Default)]
	pub struct Assets(Vec<Asset>);
	impl Assets {
		pub fn new() -> Self { Self(vec![]) }
		pub fn inner(&self) -> &Vec<Asset> { &self.0 }
		pub fn into_inner(self) -> Vec<Asset> { self.0 }
		pub fn len(&self) -> usize { self.0.len() }
		pub fn is_none(&self) -> bool { self.0.is_empty() }
		pub fn is_empty(&self) -> bool { self.0.is_empty() }
		pub fn get(&self, i: usize) -> Option<&Asset> { self.0.get(i) }
		pub fn push(&mut self, a: Asset) {
			if let Fungibility::Fungible(x) = a.fun { for y in self.0.iter_mut().filter(|y| y.id == a.id) { if let Fungibility::Fungible(ref mut z) = y.fun { *z = z.saturating_add(x); return } } }
			if !self.0.contains(&a) { self.0.push(a); self.0.sort() }
		}
	}
	impl From<Vec<Asset>> for Assets { fn from(v: Vec<Asset>) -> Self { let mut r = Self(vec![]); for a in v { r.push(a) } r } }
	impl<T: Into<Asset>> From<T> for Assets { fn from(t: T) -> Self { Self(vec![t.into()]) } }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub enum WildAsset { All, AllOf { id: AssetId, fun: WildFungibility }, AllCounted(u32), AllOfCounted { id: AssetId, fun: WildFungibility, count: u32 } }
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Debug)]
	pub enum AssetFilter { Definite(Assets), Wild(WildAsset) }
	impl From<Assets> for AssetFilter { fn from(a: Assets) -> Self { Self::Definite(a) } }
	impl From<Asset> for AssetFilter { fn from(a: Asset) -> Self { Self::Definite(a.into()) } }
	impl From<Vec<Asset>> for AssetFilter { fn from(a: Vec<Asset>) -> Self { Self::Definite(a.into()) } }
	impl From<WildAsset> for AssetFilter { fn from(a: WildAsset) -> Self { Self::Wild(a) } }
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum Error {
		Overflow, Unimplemented, UntrustedReserveLocation, UntrustedTeleportLocation, LocationFull, LocationNotInvertible, BadOrigin, InvalidLocation, AssetNotFound, FailedToTransactAsset(&'static str), NotWithdrawable, LocationCannotHold, ExceedsMaxMessageSize, DestinationUnsupported, Transport(&'static str), Unroutable, UnknownClaim, FailedToDecode, MaxWeightInvalid, NotHoldingFees, TooExpensive, Trap(u64), ExpectationFalse, PalletNotFound, NameMismatch, VersionIncompatible, HoldingWouldOverflow, ExportError, ReanchorFailed, NoDeal, FeesNotMet, LockError, NoPermission, Unanchored, NotDepositable, UnhandledXcmVersion, WeightLimitReached(Weight), Barrier, WeightNotComputable, ExceedsStackLimit,
	}
	pub type Result = std::result::Result<(), Error>;
	pub type XcmHash = [u8; 32];
	pub type QueryId = u64;
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct XcmContext { pub origin: Option<Location>, pub message_id: XcmHash, pub topic: Option<[u8; 32]> }
	impl XcmContext { pub fn with_message_id(message_id: XcmHash) -> Self { Self { origin: None, message_id, topic: None } } }
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum OriginKind { Native, SovereignAccount, Superuser, Xcm }
	#[derive(Copy, Clone, Eq, PartialEq, Debug)]
	pub enum WeightLimit { Unlimited, Limited(Weight) }
	#[derive(Clone, Eq, PartialEq, Debug, Default)]
	pub enum Response { #[default] Null, Assets(Assets), ExecutionResult(Option<(u32, Error)>), Version(u32) }
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct QueryResponseInfo { pub destination: Location, pub query_id: QueryId, pub max_weight: Weight }
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum MaybeErrorCode { Success, Error(Vec<u8>), TruncatedError(Vec<u8>) }
	pub struct DoubleEncoded<T> { encoded: Vec<u8>, _t: std::marker::PhantomData<T> }
	impl<T> Clone for DoubleEncoded<T> { fn clone(&self) -> Self { self.encoded.clone().into() } }
	impl<T> PartialEq for DoubleEncoded<T> { fn eq(&self, o: &Self) -> bool { self.encoded == o.encoded } }
	impl<T> Eq for DoubleEncoded<T> {}
	impl<T> std::fmt::Debug for DoubleEncoded<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.encoded.fmt(f) } }
	impl<T> From<Vec<u8>> for DoubleEncoded<T> { fn from(encoded: Vec<u8>) -> Self { Self { encoded, _t: Default::default() } } }
	pub enum Instruction<Call> {
		WithdrawAsset(Assets), ReserveAssetDeposited(Assets), ReceiveTeleportedAsset(Assets),
		QueryResponse { query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location> },
		TransferAsset { assets: Assets, beneficiary: Location }, TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()> },
		Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call> },
		HrmpNewChannelOpenRequest { sender: u32, max_message_size: u32, max_capacity: u32 }, HrmpChannelAccepted { recipient: u32 }, HrmpChannelClosing { initiator: u32, sender: u32, recipient: u32 },
		ClearOrigin, DescendOrigin(InteriorLocation), ReportError(QueryResponseInfo), DepositAsset { assets: AssetFilter, beneficiary: Location },
		DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()> }, ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool },
		InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()> }, InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()> },
		ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter }, BuyExecution { fees: Asset, weight_limit: WeightLimit }, RefundSurplus,
		SetErrorHandler(Xcm<Call>), SetAppendix(Xcm<Call>), ClearError, ClaimAsset { assets: Assets, ticket: Location }, Trap(u64),
		SubscribeVersion { query_id: QueryId, max_response_weight: Weight }, UnsubscribeVersion, BurnAsset(Assets), ExpectAsset(Assets), ExpectOrigin(Option<Location>), ExpectError(Option<(u32, Error)>), ExpectTransactStatus(MaybeErrorCode),
		QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo }, ExpectPallet { index: u32, name: Vec<u8>, module_name: Vec<u8>, crate_major: u32, min_crate_minor: u32 },
		ReportTransactStatus(QueryResponseInfo), ClearTransactStatus, UniversalOrigin(Junction), ExportMessage { network: NetworkId, destination: InteriorLocation, xcm: Xcm<()> },
		LockAsset { asset: Asset, unlocker: Location }, UnlockAsset { asset: Asset, target: Location }, NoteUnlockable { asset: Asset, owner: Location }, RequestUnlock { asset: Asset, locker: Location },
		SetFeesMode { jit_withdraw: bool }, SetTopic([u8; 32]), ClearTopic, AliasOrigin(Location), UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location> },
	}
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	impl<C> Xcm<C> {
		pub fn new() -> Self { Self(vec![]) }
		pub fn inner(&self) -> &[Instruction<C>] { &self.0 }
		pub fn into_inner(self) -> Vec<Instruction<C>> { self.0 }
		pub fn iter(&self) -> std::slice::Iter<'_, Instruction<C>> { self.0.iter() }
		pub fn first(&self) -> Option<&Instruction<C>> { self.0.first() }
		pub fn len(&self) -> usize { self.0.len() }
		pub fn is_empty(&self) -> bool { self.0.is_empty() }
	}
	impl<C> Clone for Xcm<C> { fn clone(&self) -> Self { Self(self.0.clone()) } }
	impl<C> PartialEq for Xcm<C> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
	impl<C> Eq for Xcm<C> {}
	impl<C> std::fmt::Debug for Xcm<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
	impl<C> Clone for Instruction<C> { fn clone(&self) -> Self { match self { Self::WithdrawAsset(a) => Self::WithdrawAsset(a.clone()), Self::ReserveAssetDeposited(a) => Self::ReserveAssetDeposited(a.clone()), Self::ReceiveTeleportedAsset(a) => Self::ReceiveTeleportedAsset(a.clone()), Self::QueryResponse { query_id, response, max_weight, querier } => Self::QueryResponse { query_id: query_id.clone(), response: response.clone(), max_weight: max_weight.clone(), querier: querier.clone() }, Self::TransferAsset { assets, beneficiary } => Self::TransferAsset { assets: assets.clone(), beneficiary: beneficiary.clone() }, Self::TransferReserveAsset { assets, dest, xcm } => Self::TransferReserveAsset { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() }, Self::Transact { origin_kind, require_weight_at_most, call } => Self::Transact { origin_kind: origin_kind.clone(), require_weight_at_most: require_weight_at_most.clone(), call: call.clone() }, Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => Self::HrmpNewChannelOpenRequest { sender: sender.clone(), max_message_size: max_message_size.clone(), max_capacity: max_capacity.clone() }, Self::HrmpChannelAccepted { recipient } => Self::HrmpChannelAccepted { recipient: recipient.clone() }, Self::HrmpChannelClosing { initiator, sender, recipient } => Self::HrmpChannelClosing { initiator: initiator.clone(), sender: sender.clone(), recipient: recipient.clone() }, Self::ClearOrigin => Self::ClearOrigin, Self::DescendOrigin(a) => Self::DescendOrigin(a.clone()), Self::ReportError(a) => Self::ReportError(a.clone()), Self::DepositAsset { assets, beneficiary } => Self::DepositAsset { assets: assets.clone(), beneficiary: beneficiary.clone() }, Self::DepositReserveAsset { assets, dest, xcm } => Self::DepositReserveAsset { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() }, Self::ExchangeAsset { give, want, maximal } => Self::ExchangeAsset { give: give.clone(), want: want.clone(), maximal: maximal.clone() }, Self::InitiateReserveWithdraw { assets, reserve, xcm } => Self::InitiateReserveWithdraw { assets: assets.clone(), reserve: reserve.clone(), xcm: xcm.clone() }, Self::InitiateTeleport { assets, dest, xcm } => Self::InitiateTeleport { assets: assets.clone(), dest: dest.clone(), xcm: xcm.clone() }, Self::ReportHolding { response_info, assets } => Self::ReportHolding { response_info: response_info.clone(), assets: assets.clone() }, Self::BuyExecution { fees, weight_limit } => Self::BuyExecution { fees: fees.clone(), weight_limit: weight_limit.clone() }, Self::RefundSurplus => Self::RefundSurplus, Self::SetErrorHandler(a) => Self::SetErrorHandler(a.clone()), Self::SetAppendix(a) => Self::SetAppendix(a.clone()), Self::ClearError => Self::ClearError, Self::ClaimAsset { assets, ticket } => Self::ClaimAsset { assets: assets.clone(), ticket: ticket.clone() }, Self::Trap(a) => Self::Trap(a.clone()), Self::SubscribeVersion { query_id, max_response_weight } => Self::SubscribeVersion { query_id: query_id.clone(), max_response_weight: max_response_weight.clone() }, Self::UnsubscribeVersion => Self::UnsubscribeVersion, Self::BurnAsset(a) => Self::BurnAsset(a.clone()), Self::ExpectAsset(a) => Self::ExpectAsset(a.clone()), Self::ExpectOrigin(a) => Self::ExpectOrigin(a.clone()), Self::ExpectError(a) => Self::ExpectError(a.clone()), Self::ExpectTransactStatus(a) => Self::ExpectTransactStatus(a.clone()), Self::QueryPallet { module_name, response_info } => Self::QueryPallet { module_name: module_name.clone(), response_info: response_info.clone() }, Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => Self::ExpectPallet { index: index.clone(), name: name.clone(), module_name: module_name.clone(), crate_major: crate_major.clone(), min_crate_minor: min_crate_minor.clone() }, Self::ReportTransactStatus(a) => Self::ReportTransactStatus(a.clone()), Self::ClearTransactStatus => Self::ClearTransactStatus, Self::UniversalOrigin(a) => Self::UniversalOrigin(a.clone()), Self::ExportMessage { network, destination, xcm } => Self::ExportMessage { network: network.clone(), destination: destination.clone(), xcm: xcm.clone() }, Self::LockAsset { asset, unlocker } => Self::LockAsset { asset: asset.clone(), unlocker: unlocker.clone() }, Self::UnlockAsset { asset, target } => Self::UnlockAsset { asset: asset.clone(), target: target.clone() }, Self::NoteUnlockable { asset, owner } => Self::NoteUnlockable { asset: asset.clone(), owner: owner.clone() }, Self::RequestUnlock { asset, locker } => Self::RequestUnlock { asset: asset.clone(), locker: locker.clone() }, Self::SetFeesMode { jit_withdraw } => Self::SetFeesMode { jit_withdraw: jit_withdraw.clone() }, Self::SetTopic(a) => Self::SetTopic(a.clone()), Self::ClearTopic => Self::ClearTopic, Self::AliasOrigin(a) => Self::AliasOrigin(a.clone()), Self::UnpaidExecution { weight_limit, check_origin } => Self::UnpaidExecution { weight_limit: weight_limit.clone(), check_origin: check_origin.clone() } } } }
	impl<C> PartialEq for Instruction<C> { fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::WithdrawAsset(a), Self::WithdrawAsset(b)) => a == b, (Self::ReserveAssetDeposited(a), Self::ReserveAssetDeposited(b)) => a == b, (Self::ReceiveTeleportedAsset(a), Self::ReceiveTeleportedAsset(b)) => a == b, (Self::QueryResponse { query_id, response, max_weight, querier }, Self::QueryResponse { query_id: __query_id, response: __response, max_weight: __max_weight, querier: __querier }) => query_id == __query_id && response == __response && max_weight == __max_weight && querier == __querier, (Self::TransferAsset { assets, beneficiary }, Self::TransferAsset { assets: __assets, beneficiary: __beneficiary }) => assets == __assets && beneficiary == __beneficiary, (Self::TransferReserveAsset { assets, dest, xcm }, Self::TransferReserveAsset { assets: __assets, dest: __dest, xcm: __xcm }) => assets == __assets && dest == __dest && xcm == __xcm, (Self::Transact { origin_kind, require_weight_at_most, call }, Self::Transact { origin_kind: __origin_kind, require_weight_at_most: __require_weight_at_most, call: __call }) => origin_kind == __origin_kind && require_weight_at_most == __require_weight_at_most && call == __call, (Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity }, Self::HrmpNewChannelOpenRequest { sender: __sender, max_message_size: __max_message_size, max_capacity: __max_capacity }) => sender == __sender && max_message_size == __max_message_size && max_capacity == __max_capacity, (Self::HrmpChannelAccepted { recipient }, Self::HrmpChannelAccepted { recipient: __recipient }) => recipient == __recipient, (Self::HrmpChannelClosing { initiator, sender, recipient }, Self::HrmpChannelClosing { initiator: __initiator, sender: __sender, recipient: __recipient }) => initiator == __initiator && sender == __sender && recipient == __recipient, (Self::ClearOrigin, Self::ClearOrigin) => true, (Self::DescendOrigin(a), Self::DescendOrigin(b)) => a == b, (Self::ReportError(a), Self::ReportError(b)) => a == b, (Self::DepositAsset { assets, beneficiary }, Self::DepositAsset { assets: __assets, beneficiary: __beneficiary }) => assets == __assets && beneficiary == __beneficiary, (Self::DepositReserveAsset { assets, dest, xcm }, Self::DepositReserveAsset { assets: __assets, dest: __dest, xcm: __xcm }) => assets == __assets && dest == __dest && xcm == __xcm, (Self::ExchangeAsset { give, want, maximal }, Self::ExchangeAsset { give: __give, want: __want, maximal: __maximal }) => give == __give && want == __want && maximal == __maximal, (Self::InitiateReserveWithdraw { assets, reserve, xcm }, Self::InitiateReserveWithdraw { assets: __assets, reserve: __reserve, xcm: __xcm }) => assets == __assets && reserve == __reserve && xcm == __xcm, (Self::InitiateTeleport { assets, dest, xcm }, Self::InitiateTeleport { assets: __assets, dest: __dest, xcm: __xcm }) => assets == __assets && dest == __dest && xcm == __xcm, (Self::ReportHolding { response_info, assets }, Self::ReportHolding { response_info: __response_info, assets: __assets }) => response_info == __response_info && assets == __assets, (Self::BuyExecution { fees, weight_limit }, Self::BuyExecution { fees: __fees, weight_limit: __weight_limit }) => fees == __fees && weight_limit == __weight_limit, (Self::RefundSurplus, Self::RefundSurplus) => true, (Self::SetErrorHandler(a), Self::SetErrorHandler(b)) => a == b, (Self::SetAppendix(a), Self::SetAppendix(b)) => a == b, (Self::ClearError, Self::ClearError) => true, (Self::ClaimAsset { assets, ticket }, Self::ClaimAsset { assets: __assets, ticket: __ticket }) => assets == __assets && ticket == __ticket, (Self::Trap(a), Self::Trap(b)) => a == b, (Self::SubscribeVersion { query_id, max_response_weight }, Self::SubscribeVersion { query_id: __query_id, max_response_weight: __max_response_weight }) => query_id == __query_id && max_response_weight == __max_response_weight, (Self::UnsubscribeVersion, Self::UnsubscribeVersion) => true, (Self::BurnAsset(a), Self::BurnAsset(b)) => a == b, (Self::ExpectAsset(a), Self::ExpectAsset(b)) => a == b, (Self::ExpectOrigin(a), Self::ExpectOrigin(b)) => a == b, (Self::ExpectError(a), Self::ExpectError(b)) => a == b, (Self::ExpectTransactStatus(a), Self::ExpectTransactStatus(b)) => a == b, (Self::QueryPallet { module_name, response_info }, Self::QueryPallet { module_name: __module_name, response_info: __response_info }) => module_name == __module_name && response_info == __response_info, (Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor }, Self::ExpectPallet { index: __index, name: __name, module_name: __module_name, crate_major: __crate_major, min_crate_minor: __min_crate_minor }) => index == __index && name == __name && module_name == __module_name && crate_major == __crate_major && min_crate_minor == __min_crate_minor, (Self::ReportTransactStatus(a), Self::ReportTransactStatus(b)) => a == b, (Self::ClearTransactStatus, Self::ClearTransactStatus) => true, (Self::UniversalOrigin(a), Self::UniversalOrigin(b)) => a == b, (Self::ExportMessage { network, destination, xcm }, Self::ExportMessage { network: __network, destination: __destination, xcm: __xcm }) => network == __network && destination == __destination && xcm == __xcm, (Self::LockAsset { asset, unlocker }, Self::LockAsset { asset: __asset, unlocker: __unlocker }) => asset == __asset && unlocker == __unlocker, (Self::UnlockAsset { asset, target }, Self::UnlockAsset { asset: __asset, target: __target }) => asset == __asset && target == __target, (Self::NoteUnlockable { asset, owner }, Self::NoteUnlockable { asset: __asset, owner: __owner }) => asset == __asset && owner == __owner, (Self::RequestUnlock { asset, locker }, Self::RequestUnlock { asset: __asset, locker: __locker }) => asset == __asset && locker == __locker, (Self::SetFeesMode { jit_withdraw }, Self::SetFeesMode { jit_withdraw: __jit_withdraw }) => jit_withdraw == __jit_withdraw, (Self::SetTopic(a), Self::SetTopic(b)) => a == b, (Self::ClearTopic, Self::ClearTopic) => true, (Self::AliasOrigin(a), Self::AliasOrigin(b)) => a == b, (Self::UnpaidExecution { weight_limit, check_origin }, Self::UnpaidExecution { weight_limit: __weight_limit, check_origin: __check_origin }) => weight_limit == __weight_limit && check_origin == __check_origin, _ => false } } }
	impl<C> Eq for Instruction<C> {}
	impl<C> std::fmt::Debug for Instruction<C> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Self::WithdrawAsset(a) => f.debug_tuple("WithdrawAsset").field(a).finish(), Self::ReserveAssetDeposited(a) => f.debug_tuple("ReserveAssetDeposited").field(a).finish(), Self::ReceiveTeleportedAsset(a) => f.debug_tuple("ReceiveTeleportedAsset").field(a).finish(), Self::QueryResponse { query_id, response, max_weight, querier } => f.debug_struct("QueryResponse").field("query_id", query_id).field("response", response).field("max_weight", max_weight).field("querier", querier).finish(), Self::TransferAsset { assets, beneficiary } => f.debug_struct("TransferAsset").field("assets", assets).field("beneficiary", beneficiary).finish(), Self::TransferReserveAsset { assets, dest, xcm } => f.debug_struct("TransferReserveAsset").field("assets", assets).field("dest", dest).field("xcm", xcm).finish(), Self::Transact { origin_kind, require_weight_at_most, call } => f.debug_struct("Transact").field("origin_kind", origin_kind).field("require_weight_at_most", require_weight_at_most).field("call", call).finish(), Self::HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => f.debug_struct("HrmpNewChannelOpenRequest").field("sender", sender).field("max_message_size", max_message_size).field("max_capacity", max_capacity).finish(), Self::HrmpChannelAccepted { recipient } => f.debug_struct("HrmpChannelAccepted").field("recipient", recipient).finish(), Self::HrmpChannelClosing { initiator, sender, recipient } => f.debug_struct("HrmpChannelClosing").field("initiator", initiator).field("sender", sender).field("recipient", recipient).finish(), Self::ClearOrigin => f.write_str("ClearOrigin"), Self::DescendOrigin(a) => f.debug_tuple("DescendOrigin").field(a).finish(), Self::ReportError(a) => f.debug_tuple("ReportError").field(a).finish(), Self::DepositAsset { assets, beneficiary } => f.debug_struct("DepositAsset").field("assets", assets).field("beneficiary", beneficiary).finish(), Self::DepositReserveAsset { assets, dest, xcm } => f.debug_struct("DepositReserveAsset").field("assets", assets).field("dest", dest).field("xcm", xcm).finish(), Self::ExchangeAsset { give, want, maximal } => f.debug_struct("ExchangeAsset").field("give", give).field("want", want).field("maximal", maximal).finish(), Self::InitiateReserveWithdraw { assets, reserve, xcm } => f.debug_struct("InitiateReserveWithdraw").field("assets", assets).field("reserve", reserve).field("xcm", xcm).finish(), Self::InitiateTeleport { assets, dest, xcm } => f.debug_struct("InitiateTeleport").field("assets", assets).field("dest", dest).field("xcm", xcm).finish(), Self::ReportHolding { response_info, assets } => f.debug_struct("ReportHolding").field("response_info", response_info).field("assets", assets).finish(), Self::BuyExecution { fees, weight_limit } => f.debug_struct("BuyExecution").field("fees", fees).field("weight_limit", weight_limit).finish(), Self::RefundSurplus => f.write_str("RefundSurplus"), Self::SetErrorHandler(a) => f.debug_tuple("SetErrorHandler").field(a).finish(), Self::SetAppendix(a) => f.debug_tuple("SetAppendix").field(a).finish(), Self::ClearError => f.write_str("ClearError"), Self::ClaimAsset { assets, ticket } => f.debug_struct("ClaimAsset").field("assets", assets).field("ticket", ticket).finish(), Self::Trap(a) => f.debug_tuple("Trap").field(a).finish(), Self::SubscribeVersion { query_id, max_response_weight } => f.debug_struct("SubscribeVersion").field("query_id", query_id).field("max_response_weight", max_response_weight).finish(), Self::UnsubscribeVersion => f.write_str("UnsubscribeVersion"), Self::BurnAsset(a) => f.debug_tuple("BurnAsset").field(a).finish(), Self::ExpectAsset(a) => f.debug_tuple("ExpectAsset").field(a).finish(), Self::ExpectOrigin(a) => f.debug_tuple("ExpectOrigin").field(a).finish(), Self::ExpectError(a) => f.debug_tuple("ExpectError").field(a).finish(), Self::ExpectTransactStatus(a) => f.debug_tuple("ExpectTransactStatus").field(a).finish(), Self::QueryPallet { module_name, response_info } => f.debug_struct("QueryPallet").field("module_name", module_name).field("response_info", response_info).finish(), Self::ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => f.debug_struct("ExpectPallet").field("index", index).field("name", name).field("module_name", module_name).field("crate_major", crate_major).field("min_crate_minor", min_crate_minor).finish(), Self::ReportTransactStatus(a) => f.debug_tuple("ReportTransactStatus").field(a).finish(), Self::ClearTransactStatus => f.write_str("ClearTransactStatus"), Self::UniversalOrigin(a) => f.debug_tuple("UniversalOrigin").field(a).finish(), Self::ExportMessage { network, destination, xcm } => f.debug_struct("ExportMessage").field("network", network).field("destination", destination).field("xcm", xcm).finish(), Self::LockAsset { asset, unlocker } => f.debug_struct("LockAsset").field("asset", asset).field("unlocker", unlocker).finish(), Self::UnlockAsset { asset, target } => f.debug_struct("UnlockAsset").field("asset", asset).field("target", target).finish(), Self::NoteUnlockable { asset, owner } => f.debug_struct("NoteUnlockable").field("asset", asset).field("owner", owner).finish(), Self::RequestUnlock { asset, locker } => f.debug_struct("RequestUnlock").field("asset", asset).field("locker", locker).finish(), Self::SetFeesMode { jit_withdraw } => f.debug_struct("SetFeesMode").field("jit_withdraw", jit_withdraw).finish(), Self::SetTopic(a) => f.debug_tuple("SetTopic").field(a).finish(), Self::ClearTopic => f.write_str("ClearTopic"), Self::AliasOrigin(a) => f.debug_tuple("AliasOrigin").field(a).finish(), Self::UnpaidExecution { weight_limit, check_origin } => f.debug_struct("UnpaidExecution").field("weight_limit", weight_limit).field("check_origin", check_origin).finish() } } }
	pub mod prelude {
		pub use super::{Asset, AssetFilter::{self, *}, AssetId, AssetInstance::{self, *}, Assets, Error as XcmError, Fungibility::{self, *}, Instruction::{self, *}, InteriorLocation, Junction::{self, *}, Junctions::{self, Here, X1, X2, X3, X4, X5, X6, X7, X8}, Location, NetworkId::{self, *}, OriginKind, Parent, QueryId, QueryResponseInfo, Response, Result as XcmResult, Weight, WeightLimit::{self, *}, WildAsset::{self, *}, WildFungibility::{self, Fungible as WildFungible, NonFungible as WildNonFungible}, Xcm, XcmContext, XcmHash};
	}
}
pub use v4 as latest;
pub mod prelude { pub use super::{latest::prelude::*, VersionedXcm}; }
pub mod v2 {
	pub use crate::v3::{MultiAsset, MultiAssets, MultiLocation};
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub enum Instruction<Call> { WithdrawAsset(MultiAssets), ReserveAssetDeposited(MultiAssets), ReceiveTeleportedAsset(MultiAssets), ClearOrigin, Unconvertible(std::marker::PhantomData<Call>) }
	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
	pub mod prelude { pub use super::{Instruction::{self, *}, MultiAsset, MultiAssets, MultiLocation, Xcm}; }
}
pub mod lts { pub use super::v3::*; }
#[derive(Clone, Eq, PartialEq, Debug)]
pub enum VersionedXcm<Call> { V2(v2::Xcm<Call>), V3(v3::Xcm<Call>) }
impl<C> From<v2::Xcm<C>> for VersionedXcm<C> { fn from(x: v2::Xcm<C>) -> Self { Self::V2(x) } }
impl<C> From<v3::Xcm<C>> for VersionedXcm<C> { fn from(x: v3::Xcm<C>) -> Self { Self::V3(x) } }
pub trait IntoVersion: Sized { fn into_version(self, n: u32) -> Result<Self, ()>; }
impl<C> IntoVersion for VersionedXcm<C> {
	fn into_version(self, n: u32) -> Result<Self, ()> {
		if n != 3 { return Err(()) }
		Ok(Self::V3(match self {
			Self::V3(x) => x,
			Self::V2(x) => v3::Xcm(x.0.into_iter().map(|i| Ok(match i { v2::Instruction::WithdrawAsset(a) => v3::Instruction::WithdrawAsset(a), v2::Instruction::ReserveAssetDeposited(a) => v3::Instruction::ReserveAssetDeposited(a), v2::Instruction::ReceiveTeleportedAsset(a) => v3::Instruction::ReceiveTeleportedAsset(a), v2::Instruction::ClearOrigin => v3::Instruction::ClearOrigin, v2::Instruction::Unconvertible(_) => return Err(()) })).collect::<Result<_, ()>>()?),
		}))
	}
}
