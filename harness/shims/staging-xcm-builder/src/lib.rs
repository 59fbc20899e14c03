//! Stand-in for `staging-xcm-builder`: the revenue interface.
use staging_xcm::v4::Asset;
pub trait TakeRevenue { fn take_revenue(revenue: Asset); }
impl TakeRevenue for () { fn take_revenue(_: Asset) {} }
/// Between the versions' locations. All of version 3's junctions exist in version 4 and the other way round.
pub struct V4V3LocationConverter;
impl sp_runtime::traits::MaybeEquivalence<staging_xcm::v4::Location, staging_xcm::v3::MultiLocation> for V4V3LocationConverter {
	fn convert(old: &staging_xcm::v4::Location) -> Option<staging_xcm::v3::MultiLocation> { old.clone().try_into().ok() }
	fn convert_back(new: &staging_xcm::v3::MultiLocation) -> Option<staging_xcm::v4::Location> { Some((*new).into()) }
}
