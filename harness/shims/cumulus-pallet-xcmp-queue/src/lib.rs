//! Stand-in for the fork of `cumulus-pallet-xcmp-queue`: the deferral interface.
use frame_support::weights::Weight;
pub trait XcmDeferFilter<Call> { fn deferred_by(para: polkadot_parachain_primitives::primitives::Id, sent_at: u32, xcm: &staging_xcm::VersionedXcm<Call>) -> (Weight, Option<u32>); }
