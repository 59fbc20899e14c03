pub mod tokens;
pub mod misc;
pub use misc::*;
pub use tokens::currency::*;
pub use tokens::{fungible, fungibles, nonfungible, nonfungibles, nonfungibles_v2, BalanceStatus, ExistenceRequirement, WithdrawReasons, imbalance::*};
pub use crate::storage::bounded_vec as _bv;
pub use sp_core::bounded::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TypedGet};
pub mod schedule {
	use codec::{Decode, Encode, MaxEncodedLen};
	use scale_info::TypeInfo;
	pub type Period<B> = (B, u32);
	pub type Priority = u8;
	pub const HIGHEST_PRIORITY: Priority = 0;
	pub const HARD_DEADLINE: Priority = 63;
	pub const LOWEST_PRIORITY: Priority = 255;
	#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
	pub enum DispatchTime<B> { At(B), After(B) }
	impl<B: sp_runtime::traits::Saturating + Copy> DispatchTime<B> { pub fn evaluate(&self, since: B) -> B { match self { Self::At(m) => *m, Self::After(m) => m.saturating_add(since) } } }
	pub mod v3 {
		use super::*;
		use crate::traits::Bounded;
		use sp_runtime::{DispatchError, DispatchResult};
		pub type TaskName = [u8; 32];
		pub trait Named<B, Call, Origin> {
			type Address: codec::Codec + MaxEncodedLen + Clone + Eq + codec::EncodeLike + std::fmt::Debug;
			type Hasher: sp_runtime::traits::Hash;
			fn schedule_named(id: TaskName, when: DispatchTime<B>, p: Option<Period<B>>, prio: Priority, o: Origin, c: Bounded<Call, Self::Hasher>) -> Result<Self::Address, DispatchError>;
			fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
			fn reschedule_named(id: TaskName, when: DispatchTime<B>) -> Result<Self::Address, DispatchError>;
			fn next_dispatch_time(id: TaskName) -> Result<B, DispatchError>;
		}
		#[allow(unused)] fn _r() -> DispatchResult { Ok(()) }
	}
}
mod preimages {
	use codec::{Decode, Encode, EncodeLike, MaxEncodedLen};
	use scale_info::TypeInfo;
	use sp_core::H256;
	use sp_runtime::traits::Hash as HashT;
	use sp_runtime::DispatchError;
	pub type BoundedInline = sp_runtime::BoundedVec<u8, sp_core::ConstU32<128>>;
	#[derive(Encode, Decode, MaxEncodedLen)]
	#[codec(encode_bound())] #[codec(decode_bound())] #[codec(mel_bound())]
	pub enum Bounded<T, H: HashT> {
		Legacy { hash: <H as HashT>::Output, #[codec(skip)] dummy: std::marker::PhantomData<T> },
		Inline(BoundedInline),
		Lookup { hash: <H as HashT>::Output, len: u32 },
	}
	impl<T, H: HashT> Clone for Bounded<T, H> { fn clone(&self) -> Self { match self { Self::Legacy { hash, .. } => Self::Legacy { hash: *hash, dummy: Default::default() }, Self::Inline(x) => Self::Inline(x.clone()), Self::Lookup { hash, len } => Self::Lookup { hash: *hash, len: *len } } } }
	impl<T, H: HashT> PartialEq for Bounded<T, H> { fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::Legacy { hash: a, .. }, Self::Legacy { hash: b, .. }) => a == b, (Self::Inline(a), Self::Inline(b)) => a == b, (Self::Lookup { hash: a, len: b }, Self::Lookup { hash: c, len: d }) => a == c && b == d, _ => false } } }
	impl<T, H: HashT> Eq for Bounded<T, H> {}
	impl<T, H: HashT> std::fmt::Debug for Bounded<T, H> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Self::Legacy { hash, .. } => write!(f, "Legacy({hash:?})"), Self::Inline(v) => write!(f, "Inline({v:?})"), Self::Lookup { hash, len } => write!(f, "Lookup({hash:?},{len})") } } }
	impl<T: 'static, H: HashT> TypeInfo for Bounded<T, H> { type Identity = (); fn type_info() -> scale_info::Type { <() as TypeInfo>::type_info() } }
	impl<T, H: HashT> Bounded<T, H> {
		pub fn hash(&self) -> <H as HashT>::Output { match self { Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => *hash, Self::Inline(x) => <H as HashT>::hash(x.as_ref()) } }
		pub fn lookup_hash(&self) -> Option<<H as HashT>::Output> { match self { Self::Lookup { hash, .. } | Self::Legacy { hash, .. } => Some(*hash), Self::Inline(_) => None } }
		pub fn len(&self) -> Option<u32> { match self { Self::Legacy { .. } => None, Self::Inline(i) => Some(i.len() as u32), Self::Lookup { len, .. } => Some(*len) } }
		pub fn lookup_needed(&self) -> bool { !matches!(self, Self::Inline(_)) }
		pub fn lookup_len(&self) -> Option<u32> { match self { Self::Lookup { len, .. } => Some(*len), _ => None } }
		pub fn from_legacy_hash(h: impl Into<<H as HashT>::Output>) -> Self { Self::Legacy { hash: h.into(), dummy: Default::default() } }
	}
	pub trait QueryPreimage {
		type H: HashT;
		fn len(hash: &<Self::H as HashT>::Output) -> Option<u32>;
		fn fetch(hash: &<Self::H as HashT>::Output, len: Option<u32>) -> Result<Vec<u8>, DispatchError>;
		fn is_requested(hash: &<Self::H as HashT>::Output) -> bool;
		fn request(hash: &<Self::H as HashT>::Output);
		fn unrequest(hash: &<Self::H as HashT>::Output);
		fn hold<T>(b: &Bounded<T, Self::H>) { if let Some(h) = b.lookup_hash() { Self::request(&h) } }
		fn drop<T>(b: &Bounded<T, Self::H>) { if let Some(h) = b.lookup_hash() { Self::unrequest(&h) } }
		fn have<T>(b: &Bounded<T, Self::H>) -> bool { match b.lookup_hash() { Some(h) => Self::len(&h).is_some(), None => true } }
		fn pick<T>(hash: <Self::H as HashT>::Output, len: u32) -> Bounded<T, Self::H> { Self::request(&hash); Bounded::Lookup { hash, len } }
		fn peek<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> {
			match b {
				Bounded::Inline(d) => T::decode(&mut &d[..]).map(|t| (t, None)).map_err(|_| DispatchError::Corruption),
				Bounded::Lookup { hash, len } => { let d = Self::fetch(hash, Some(*len))?; T::decode(&mut &d[..]).map(|t| (t, Some(d.len() as u32))).map_err(|_| DispatchError::Corruption) },
				Bounded::Legacy { hash, .. } => { let d = Self::fetch(hash, None)?; T::decode(&mut &d[..]).map(|t| (t, Some(d.len() as u32))).map_err(|_| DispatchError::Corruption) },
			}
		}
		fn realize<T: Decode>(b: &Bounded<T, Self::H>) -> Result<(T, Option<u32>), DispatchError> { let r = Self::peek(b)?; Self::drop(b); Ok(r) }
	}
	pub trait StorePreimage: QueryPreimage {
		const MAX_LENGTH: usize;
		fn note(b: std::borrow::Cow<[u8]>) -> Result<<Self::H as HashT>::Output, DispatchError>;
		fn unnote(hash: &<Self::H as HashT>::Output) { Self::unrequest(hash) }
		fn bound<T: Encode>(t: T) -> Result<Bounded<T, Self::H>, DispatchError> {
			let data = t.encode();
			let len = data.len() as u32;
			Ok(match BoundedInline::try_from(data) { Ok(b) => Bounded::Inline(b), Err(u) => Bounded::Lookup { hash: Self::note(u.into())?, len } })
		}
	}
	#[allow(unused)] fn _h(_: H256) {}
}
pub use preimages::*;
