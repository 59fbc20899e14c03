//! Stand-in for `pallet-session`: the session manager interface.
pub type SessionIndex = u32;
pub trait SessionManager<ValidatorId> {
	fn new_session(new_index: SessionIndex) -> Option<Vec<ValidatorId>>;
	fn new_session_genesis(new_index: SessionIndex) -> Option<Vec<ValidatorId>> { Self::new_session(new_index) }
	fn end_session(end_index: SessionIndex);
	fn start_session(start_index: SessionIndex);
}
impl<A> SessionManager<A> for () { fn new_session(_: SessionIndex) -> Option<Vec<A>> { None } fn start_session(_: SessionIndex) {} fn end_session(_: SessionIndex) {} }
