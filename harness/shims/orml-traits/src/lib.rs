//! The orml trait definitions (release polkadot-v1.7.2), re-stated for the offline harness.
pub use frame_support::traits::{BalanceStatus, LockIdentifier};
pub use currency::*;
pub use get_by_key::GetByKey;
pub mod arithmetic;
pub mod currency;
pub mod get_by_key;
pub mod asset_registry {}
/// Indicate if should do something on the event.
pub trait Happened<T> { fn happened(t: &T); }
#[impl_trait_for_tuples::impl_for_tuples(8)]
impl<T> Happened<T> for Tuple { fn happened(t: &T) { for_tuples!( #( Tuple::happened(t); )* ); } }
pub trait Handler<T> { fn handle(t: &T) -> sp_runtime::DispatchResult; }
#[impl_trait_for_tuples::impl_for_tuples(30)]
impl<T> Handler<T> for Tuple { fn handle(t: &T) -> sp_runtime::DispatchResult { for_tuples!( #( Tuple::handle(t)?; )* ); Ok(()) } }
pub trait Contains<T> { fn contains(t: &T) -> bool; }
