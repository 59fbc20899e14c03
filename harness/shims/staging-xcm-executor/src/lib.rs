//! Stand-in for `staging-xcm-executor`: the holding register and the traits the adapters implement. There is no executor.
use staging_xcm::v4::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
#[derive(Default, Clone, Debug, Eq, PartialEq)]
pub struct AssetsInHolding { pub fungible: BTreeMap<AssetId, u128>, pub non_fungible: BTreeSet<(AssetId, AssetInstance)> }
impl From<Asset> for AssetsInHolding { fn from(a: Asset) -> Self { let mut r = Self::default(); r.subsume(a); r } }
impl From<Vec<Asset>> for AssetsInHolding { fn from(v: Vec<Asset>) -> Self { let mut r = Self::default(); for a in v { r.subsume(a) } r } }
impl From<Assets> for AssetsInHolding { fn from(a: Assets) -> Self { a.into_inner().into() } }
impl From<AssetsInHolding> for Vec<Asset> { fn from(a: AssetsInHolding) -> Self { a.assets_iter().collect() } }
impl From<AssetsInHolding> for Assets { fn from(a: AssetsInHolding) -> Self { a.assets_iter().collect::<Vec<_>>().into() } }
impl AssetsInHolding {
	pub fn new() -> Self { Self::default() }
	pub fn len(&self) -> usize { self.fungible.len() + self.non_fungible.len() }
	pub fn is_empty(&self) -> bool { self.len() == 0 }
	pub fn fungible_assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.fungible.iter().map(|(id, &amount)| Asset { id: id.clone(), fun: Fungible(amount) }) }
	pub fn non_fungible_assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.non_fungible.iter().map(|(id, i)| Asset { id: id.clone(), fun: NonFungible(*i) }) }
	pub fn assets_iter(&self) -> impl Iterator<Item = Asset> + '_ { self.fungible_assets_iter().chain(self.non_fungible_assets_iter()) }
	pub fn into_assets_iter(self) -> impl Iterator<Item = Asset> { self.fungible.into_iter().map(|(id, a)| Asset { id, fun: Fungible(a) }).chain(self.non_fungible.into_iter().map(|(id, i)| Asset { id, fun: NonFungible(i) })) }
	pub fn subsume(&mut self, a: Asset) {
		match a.fun {
			Fungible(x) => { self.fungible.entry(a.id).and_modify(|e| *e = e.saturating_add(x)).or_insert(x); }
			NonFungible(i) => { self.non_fungible.insert((a.id, i)); }
		}
	}
	pub fn contains_asset(&self, a: &Asset) -> bool { match a.fun { Fungible(x) => self.fungible.get(&a.id).map_or(false, |y| *y >= x), NonFungible(i) => self.non_fungible.contains(&(a.id.clone(), i)) } }
	/// As upstream: everything left after taking `asset`, or everything back.
	pub fn checked_sub(mut self, asset: Asset) -> Result<AssetsInHolding, AssetsInHolding> {
		match asset.fun {
			Fungible(amount) => {
				let remove = match self.fungible.get_mut(&asset.id) { Some(balance) => if *balance >= amount { *balance -= amount; *balance == 0 } else { return Err(self) }, None => return Err(self) };
				if remove { self.fungible.remove(&asset.id); }
				Ok(self)
			}
			NonFungible(i) => if self.non_fungible.remove(&(asset.id, i)) { Ok(self) } else { Err(self) },
		}
	}
}
pub mod traits {
	use super::*;
	pub trait ConvertLocation<AccountId> { fn convert_location(location: &Location) -> Option<AccountId>; }
	pub trait MatchesFungible<Balance> { fn matches_fungible(a: &Asset) -> Option<Balance>; }
	pub trait AssetExchange { fn exchange_asset(origin: Option<&Location>, give: AssetsInHolding, want: &Assets, maximal: bool) -> Result<AssetsInHolding, AssetsInHolding>; }
	pub trait WeightTrader: Sized {
		fn new() -> Self;
		fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, context: &XcmContext) -> Result<AssetsInHolding, XcmError>;
		fn refund_weight(&mut self, _weight: Weight, _context: &XcmContext) -> Option<Asset> { None }
	}
	pub trait TransactAsset {
		fn can_check_in(_origin: &Location, _what: &Asset, _context: &XcmContext) -> XcmResult { Err(XcmError::Unimplemented) }
		fn check_in(_origin: &Location, _what: &Asset, _context: &XcmContext) {}
		fn can_check_out(_dest: &Location, _what: &Asset, _context: &XcmContext) -> XcmResult { Err(XcmError::Unimplemented) }
		fn check_out(_dest: &Location, _what: &Asset, _context: &XcmContext) {}
		fn deposit_asset(_what: &Asset, _who: &Location, _context: Option<&XcmContext>) -> XcmResult { Err(XcmError::Unimplemented) }
		fn withdraw_asset(_what: &Asset, _who: &Location, _context: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> { Err(XcmError::Unimplemented) }
		fn internal_transfer_asset(asset: &Asset, from: &Location, to: &Location, context: &XcmContext) -> Result<AssetsInHolding, XcmError> { Self::transfer_asset(asset, from, to, context) }
		fn transfer_asset(_asset: &Asset, _from: &Location, _to: &Location, _context: &XcmContext) -> Result<AssetsInHolding, XcmError> { Err(XcmError::Unimplemented) }
	}
}
