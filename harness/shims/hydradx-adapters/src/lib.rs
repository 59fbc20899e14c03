//! Stand-in: the one trait `pallet-dca` uses.
pub trait RelayChainBlockHashProvider { fn parent_hash() -> Option<cumulus_primitives_core::relay_chain::Hash>; }
