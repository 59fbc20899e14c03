use crate::dispatch::*;
use crate::weights::Weight;
use codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use impl_trait_for_tuples::impl_for_tuples;
use scale_info::TypeInfo;
use sp_core::bounded::Get;
use sp_runtime::traits::{BadOrigin, Zero};
use sp_runtime::{DispatchError, DispatchResult};
use std::fmt::Debug;
use std::marker::PhantomData;
pub use sp_runtime::traits::{MaybeSerializeDeserialize as _Msd, TryConvert as _TryConvert};

pub trait IsType<T>: Into<T> + From<T> { fn from_ref(t: &T) -> &Self; fn into_ref(&self) -> &T; fn from_mut(t: &mut T) -> &mut Self; fn into_mut(&mut self) -> &mut T; }
impl<T> IsType<T> for T { fn from_ref(t: &T) -> &T { t } fn into_ref(&self) -> &T { self } fn from_mut(t: &mut T) -> &mut T { t } fn into_mut(&mut self) -> &mut T { self } }
pub trait IsSubType<T> { fn is_sub_type(&self) -> Option<&T>; }
pub trait TryDrop: Sized { fn try_drop(self) -> Result<(), Self>; }
impl TryDrop for () { fn try_drop(self) -> Result<(), ()> { Ok(()) } }
pub enum SameOrOther<A, B> { None, Same(A), Other(B) }
impl<A, B> SameOrOther<A, B> {
	pub fn drop_other(self) -> Result<A, ()> where B: TryDrop { match self { Self::Same(a) => Ok(a), _ => Err(()) } }
	pub fn same(self) -> Result<A, ()> { match self { Self::Same(a) => Ok(a), _ => Err(()) } }
	pub fn other(self) -> Result<B, ()> { match self { Self::Other(a) => Ok(a), _ => Err(()) } }
}
pub trait Contains<T> { fn contains(t: &T) -> bool; }
impl<T> Contains<T> for () { fn contains(_: &T) -> bool { false } }
macro_rules! contains_tuple { ($($n:ident)+) => { impl<T, $($n: Contains<T>),+> Contains<T> for ($($n,)+) { fn contains(t: &T) -> bool { $( if $n::contains(t) { return true } )+ false } } } }
contains_tuple!(A); contains_tuple!(A B); contains_tuple!(A B C); contains_tuple!(A B C D); contains_tuple!(A B C D E); contains_tuple!(A B C D E F); contains_tuple!(A B C D E F G); contains_tuple!(A B C D E F G H);
pub struct Everything;
impl<T> Contains<T> for Everything { fn contains(_: &T) -> bool { true } }
pub struct Nothing;
impl<T> Contains<T> for Nothing { fn contains(_: &T) -> bool { false } }
pub struct EverythingBut<E>(PhantomData<E>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> { fn contains(t: &T) -> bool { !E::contains(t) } }
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> { fn contains(t: &T) -> bool { A::contains(t) && B::contains(t) } }
pub struct Equals<X>(PhantomData<X>);
impl<X: PartialEq, T: Get<X>> Contains<X> for Equals<T> { fn contains(t: &X) -> bool { t == &T::get() } }
pub struct IsInVec<T>(PhantomData<T>);
impl<X: PartialEq, T: Get<Vec<X>>> Contains<X> for IsInVec<T> { fn contains(t: &X) -> bool { T::get().contains(t) } }
pub trait ContainsPair<A, B> { fn contains(a: &A, b: &B) -> bool; }
pub trait ContainsLengthBound { fn min_len() -> usize; fn max_len() -> usize; }
pub trait SortedMembers<T: Ord> { fn contains(t: &T) -> bool { Self::sorted_members().binary_search(t).is_ok() } fn sorted_members() -> Vec<T>; fn count() -> usize { Self::sorted_members().len() } }
pub trait Len { fn len(&self) -> usize; }
impl<T: IntoIterator + Clone> Len for T where <T as IntoIterator>::IntoIter: ExactSizeIterator { fn len(&self) -> usize { self.clone().into_iter().len() } }
pub trait TryCollect<C> { type Error; fn try_collect(self) -> Result<C, Self::Error>; }
impl<I: ExactSizeIterator, T, S: Get<u32>> TryCollect<sp_runtime::BoundedVec<T, S>> for I where I: Iterator<Item = T> { type Error = &'static str; fn try_collect(self) -> Result<sp_runtime::BoundedVec<T, S>, &'static str> { sp_runtime::BoundedVec::try_from(self.collect::<Vec<_>>()).map_err(|_| "iterator length too big") } }
pub trait OnUnbalanced<I> { fn on_unbalanced(a: I) { Self::on_nonzero_unbalanced(a) } fn on_unbalanceds<B>(a: impl Iterator<Item = I>) where I: crate::traits::Imbalance<B>, B: Default { Self::on_unbalanced(a.fold(I::zero(), |i, x| x.merge(i))) } fn on_nonzero_unbalanced(a: I) { drop(a) } }
impl<I> OnUnbalanced<I> for () {}
pub struct VariantCount;
pub trait Randomness<O, B> { fn random(s: &[u8]) -> (O, B); }
pub trait Time { type Moment: sp_runtime::traits::AtLeast32Bit + crate::Parameter + Default + Copy + MaxEncodedLen; fn now() -> Self::Moment; }
pub trait UnixTime { fn now() -> std::time::Duration; }
pub trait Instance { const PREFIX: &'static str; }
pub trait StorageInstance { fn pallet_prefix() -> &'static str; const STORAGE_PREFIX: &'static str; }
pub trait FindAuthor<A> { fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(d: I) -> Option<A>; }
impl<A> FindAuthor<A> for () { fn find_author<'a, I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>>(_: I) -> Option<A> { None } }
pub trait ValidatorSet<A> { type ValidatorId; fn validators() -> Vec<Self::ValidatorId>; }
pub trait ValidatorRegistration<A> { fn is_registered(_: &A) -> bool; }
pub trait EstimateNextSessionRotation<B> { fn average_session_length() -> B; }
pub trait LockIdentifier_ {}
pub trait ExtrinsicCall {}
pub trait ChangeMembers<A> {}
/// `filter`: may the proxy make the call
pub trait InstanceFilter<T>: Sized + Send + Sync { fn filter(&self, _: &T) -> bool; fn is_superset(&self, _: &Self) -> bool { false } }
pub trait PrivilegeCmp<O> { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering>; }
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly { fn cmp_privilege(l: &O, r: &O) -> Option<std::cmp::Ordering> { (l == r).then_some(std::cmp::Ordering::Equal) } }

// ------------------------------------------------------------------ origins
pub trait CallerTrait<A>: Codec + EncodeLike + Clone + PartialEq + Eq + Debug + From<RawOrigin<A>> + TypeInfo + MaxEncodedLen { fn into_system(self) -> Option<RawOrigin<A>>; fn as_system_ref(&self) -> Option<&RawOrigin<A>>; fn as_signed(&self) -> Option<&A> { self.as_system_ref().and_then(RawOrigin::as_signed) } fn is_root(&self) -> bool { matches!(self.as_system_ref(), Some(RawOrigin::Root)) } fn is_none(&self) -> bool { matches!(self.as_system_ref(), Some(RawOrigin::None)) } }
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, f: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, o: impl Into<Self>);
	fn filter_call(&self, c: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
	fn as_signed(&self) -> Option<&Self::AccountId> { self.caller().as_signed() }
	fn into_signer(self) -> Option<Self::AccountId> { CallerTrait::<Self::AccountId>::into_system(self.into_caller()).and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None }) }
}
pub trait EnsureOrigin<O> {
	type Success;
	fn ensure_origin(o: O) -> Result<Self::Success, BadOrigin> { Self::try_origin(o).map_err(|_| BadOrigin) }
	fn try_origin(o: O) -> Result<Self::Success, O>;
	fn ensure_origin_or_root(o: O) -> Result<Option<Self::Success>, BadOrigin> where O: OriginTrait { if o.caller().is_root() { return Ok(None); } Self::ensure_origin(o).map(Some) }
}
pub trait EnsureOriginWithArg<O, A> {
	type Success;
	fn ensure_origin(o: O, a: &A) -> Result<Self::Success, BadOrigin> { Self::try_origin(o, a).map_err(|_| BadOrigin) }
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> { type Success = E::Success; fn try_origin(o: O, _: &A) -> Result<E::Success, O> { E::try_origin(o) } }
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> { type Success = L::Success; fn try_origin(o: O) -> Result<L::Success, O> { L::try_origin(o).or_else(R::try_origin) } }
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> { type Success = sp_runtime::Either<L::Success, R::Success>; fn try_origin(o: O) -> Result<Self::Success, O> { match L::try_origin(o) { Ok(l) => Ok(sp_runtime::Either::Left(l)), Err(o) => R::try_origin(o).map(sp_runtime::Either::Right) } } }
pub struct MapSuccess<E, M>(PhantomData<(E, M)>);

// ------------------------------------------------------------------ calls
pub trait UnfilteredDispatchable { type RuntimeOrigin; fn dispatch_bypass_filter(self, o: Self::RuntimeOrigin) -> DispatchResultWithPostInfo; }
pub trait Callable<T: ?Sized> { type RuntimeCall; }
pub trait GetCallName { fn get_call_names() -> &'static [&'static str]; fn get_call_name(&self) -> &'static str; }
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct CallMetadata { pub function_name: &'static str, pub pallet_name: &'static str }
pub trait GetCallMetadata { fn get_module_names() -> &'static [&'static str]; fn get_call_names(m: &str) -> &'static [&'static str]; fn get_call_metadata(&self) -> CallMetadata; }
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub struct CrateVersion { pub major: u16, pub minor: u8, pub patch: u8 }
pub trait PalletInfo { fn index<P: 'static>() -> Option<usize>; fn name<P: 'static>() -> Option<&'static str>; fn module_name<P: 'static>() -> Option<&'static str>; fn crate_version<P: 'static>() -> Option<CrateVersion>; }
impl PalletInfo for () { fn index<P: 'static>() -> Option<usize> { Some(0) } fn name<P: 'static>() -> Option<&'static str> { Some("test") } fn module_name<P: 'static>() -> Option<&'static str> { Some("test") } fn crate_version<P: 'static>() -> Option<CrateVersion> { Some(Default::default()) } }
pub trait PalletInfoAccess { fn index() -> usize; fn name() -> &'static str; fn module_name() -> &'static str; fn crate_version() -> CrateVersion; }
pub trait PalletsInfoAccess { fn count() -> usize { 0 } }
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default, TypeInfo, MaxEncodedLen)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self { Self(v) }
	fn key<P: PalletInfoAccess>() -> [u8; 32] { crate::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:") }
	pub fn put<P: PalletInfoAccess>(&self) { crate::storage::unhashed::put(&Self::key::<P>(), self) }
	pub fn get<P: PalletInfoAccess>() -> Self { crate::storage::unhashed::get_or_default(&Self::key::<P>()) }
	pub fn exists<P: PalletInfoAccess>() -> bool { crate::storage::unhashed::exists(&Self::key::<P>()) }
}
impl PartialEq<u16> for StorageVersion { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for StorageVersion { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }
pub trait GetStorageVersion { type CurrentStorageVersion; fn current_storage_version() -> StorageVersion; fn in_code_storage_version() -> StorageVersion; fn on_chain_storage_version() -> StorageVersion; }

// ------------------------------------------------------------------ hooks
pub trait OnInitialize<BlockNumber> { fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() } }
pub trait OnFinalize<BlockNumber> { fn on_finalize(_n: BlockNumber) {} }
pub trait OffchainWorker<BlockNumber> { fn offchain_worker(_n: BlockNumber) {} }
pub trait IntegrityTest { fn integrity_test() {} }
pub trait OnGenesis { fn on_genesis() {} }
#[impl_for_tuples(40)]
impl<BlockNumber: Clone> OnInitialize<BlockNumber> for Tuple { fn on_initialize(n: BlockNumber) -> Weight { let mut w = Weight::zero(); for_tuples!( #( w = w.saturating_add(Tuple::on_initialize(n.clone())); )* ); w } }
#[impl_for_tuples(40)]
impl<BlockNumber: Clone> OnFinalize<BlockNumber> for Tuple { fn on_finalize(n: BlockNumber) { for_tuples!( #( Tuple::on_finalize(n.clone()); )* ); } }
#[impl_for_tuples(40)]
impl OnGenesis for Tuple { fn on_genesis() { for_tuples!( #( Tuple::on_genesis(); )* ); } }
pub trait OnIdle<BlockNumber> { fn on_idle(_n: BlockNumber, _w: Weight) -> Weight { Weight::zero() } }
pub trait OnRuntimeUpgrade { fn on_runtime_upgrade() -> Weight { Weight::zero() } }
impl OnRuntimeUpgrade for () {}
pub trait Hooks<BlockNumber> {
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight { Weight::zero() }
	fn on_initialize(_n: BlockNumber) -> Weight { Weight::zero() }
	fn on_finalize(_n: BlockNumber) {}
	fn on_poll(_n: BlockNumber, _w: &mut crate::weights::WeightMeter) {}
	fn on_runtime_upgrade() -> Weight { Weight::zero() }
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig { fn build(&self); }
impl BuildGenesisConfig for () { fn build(&self) {} }
pub trait GenesisBuild<T, I = ()> {}

// ------------------------------------------------------------------ accounts
pub trait OnNewAccount<A> { fn on_new_account(a: &A); }
pub trait OnKilledAccount<A> { fn on_killed_account(a: &A); }
impl<A> OnNewAccount<A> for () { fn on_new_account(_: &A) {} }
impl<A> OnKilledAccount<A> for () { fn on_killed_account(_: &A) {} }
macro_rules! acc_tuple { ($($n:ident)+) => {
	impl<Z, $($n: OnNewAccount<Z>),+> OnNewAccount<Z> for ($($n,)+) { fn on_new_account(a: &Z) { $( $n::on_new_account(a); )+ } }
	impl<Z, $($n: OnKilledAccount<Z>),+> OnKilledAccount<Z> for ($($n,)+) { fn on_killed_account(a: &Z) { $( $n::on_killed_account(a); )+ } }
} }
acc_tuple!(A); acc_tuple!(A B); acc_tuple!(A B C); acc_tuple!(A B C D);
pub trait HandleLifetime<T> { fn created(_t: &T) -> Result<(), DispatchError> { Ok(()) } fn killed(_t: &T) -> Result<(), DispatchError> { Ok(()) } }
impl<T> HandleLifetime<T> for () {}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> { Self::mutate_exists(k, |m| { let mut v = m.take().unwrap_or_default(); let r = f(&mut v); *m = Some(v); r }) }
	fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> { Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) }) }
	fn insert(k: &K, t: T) -> Result<(), DispatchError> { Self::mutate(k, |i| *i = t) }
	fn remove(k: &K) -> Result<(), DispatchError> { Self::mutate_exists(k, |x| *x = None) }
}
pub trait PalletError: Encode + Decode { const MAX_ENCODED_SIZE: usize; }
macro_rules! pe { ($($t:ty),*) => {$( impl PalletError for $t { const MAX_ENCODED_SIZE: usize = std::mem::size_of::<$t>(); } )*} }
pe!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, ());
impl<T> PalletError for PhantomData<T> { const MAX_ENCODED_SIZE: usize = 0; }
impl PalletError for crate::Never { const MAX_ENCODED_SIZE: usize = 0; }
pub trait TypedGet_ {}
pub trait SafeMode {}
pub trait TransactionPause {}
pub trait AccountTouch<AssetId, AccountId> { type Balance; fn deposit_required(a: AssetId) -> Self::Balance; fn touch(a: AssetId, who: &AccountId, d: &AccountId) -> DispatchResult; }
pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); }
impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_: M) {} }
pub trait Footprint_ {}
pub trait ProcessMessage {}
pub trait ConstantGet {}
/// Converts by a fixed rule; used by runtimes.
pub trait Consideration {}
#[allow(unused)] fn _z<T: Zero>(_: T) {}

// ------------------------------------------------------------------ defensive
pub mod defensive_prelude { pub use super::{Defensive, DefensiveOption, DefensiveResult}; }
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, o: T) -> T;
	fn defensive_unwrap_or_default(self) -> T where T: Default;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive(self) -> Self;
	fn defensive_proof(self, p: &'static str) -> Self;
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U;
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, o: T) -> T { match self { Some(x) => x, None => { crate::note_defensive("none"); o } } }
	fn defensive_unwrap_or_default(self) -> T where T: Default { match self { Some(x) => x, None => { crate::note_defensive("none"); T::default() } } }
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self { Some(x) => x, None => { crate::note_defensive("none"); f() } } }
	fn defensive(self) -> Self { if self.is_none() { crate::note_defensive("none") } self }
	fn defensive_proof(self, p: &'static str) -> Self { if self.is_none() { crate::note_defensive(p) } self }
}
impl<T, E: Debug> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, o: T) -> T { match self { Ok(x) => x, Err(e) => { crate::note_defensive(&format!("{e:?}")); o } } }
	fn defensive_unwrap_or_default(self) -> T where T: Default { match self { Ok(x) => x, Err(e) => { crate::note_defensive(&format!("{e:?}")); T::default() } } }
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T { match self { Ok(x) => x, Err(e) => { crate::note_defensive(&format!("{e:?}")); f() } } }
	fn defensive(self) -> Self { if let Err(e) = &self { crate::note_defensive(&format!("{e:?}")) } self }
	fn defensive_proof(self, p: &'static str) -> Self { if self.is_err() { crate::note_defensive(p) } self }
}
impl<T, E: Debug> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> { self.map_err(|e| { crate::note_defensive(&format!("{e:?}")); o(e) }) }
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { self.map_or_else(|e| { crate::note_defensive(&format!("{e:?}")); d(e) }, f) }
	fn defensive_ok(self) -> Option<T> { match self { Ok(t) => Some(t), Err(e) => { crate::note_defensive(&format!("{e:?}")); None } } }
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> { if let Err(e) = &self { crate::note_defensive(&format!("{e:?}")) } self.map(f) }
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> U { match self { Some(x) => f(x), None => { crate::note_defensive("none"); d() } } }
	fn defensive_ok_or_else<E, F: FnOnce() -> E>(self, err: F) -> Result<T, E> { self.ok_or_else(|| { crate::note_defensive("none"); err() }) }
	fn defensive_ok_or<E>(self, err: E) -> Result<T, E> { self.ok_or_else(|| { crate::note_defensive("none"); err }) }
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> { if self.is_none() { crate::note_defensive("none") } self.map(f) }
}
pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, o: Self) -> Self;
	fn defensive_saturating_sub(self, o: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, o: Self);
	fn defensive_saturating_reduce(&mut self, o: Self);
}
impl<T: sp_runtime::Saturating + sp_runtime::traits::CheckedAdd + sp_runtime::traits::CheckedSub + Copy> DefensiveSaturating for T {
	fn defensive_saturating_add(self, o: Self) -> Self { self.checked_add(&o).defensive_unwrap_or_else(|| self.saturating_add(o)) }
	fn defensive_saturating_sub(self, o: Self) -> Self { self.checked_sub(&o).defensive_unwrap_or_else(|| self.saturating_sub(o)) }
	fn defensive_saturating_accrue(&mut self, o: Self) { *self = self.defensive_saturating_add(o) }
	fn defensive_saturating_reduce(&mut self, o: Self) { *self = self.defensive_saturating_sub(o) }
}
