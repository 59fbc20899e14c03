//! Stand-in for `orml-vesting`: the lock identifier.
pub const VESTING_LOCK_ID: frame_support::traits::LockIdentifier = *b"ormlvest";
