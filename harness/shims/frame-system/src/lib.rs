//! Stand-in for `frame-system`.
extern crate self as frame_system;
use codec::{Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use frame_support::dispatch::*;
use frame_support::traits::*;
use frame_support::weights::{RuntimeDbWeight, Weight};
use frame_support::pallet_prelude::{MaybeSerializeDeserialize, Member};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32Bit, BadOrigin, BlockNumberProvider, HeaderFor as HF, Lookup, MaybeDisplay, Dispatchable, StaticLookup, Zero, One};
use sp_runtime::{DispatchError, DispatchResult};
use std::fmt::Debug;
use std::marker::PhantomData;
pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;
pub mod limits;
pub mod offchain;
pub mod weights { pub trait WeightInfo {} impl WeightInfo for () {} }
pub use weights::WeightInfo;
pub mod mocking {
	use sp_runtime::generic;
	pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> = generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, Signature, Extra>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
#[derive(Encode, Decode, Debug, TypeInfo, Clone, PartialEq, Eq)]
pub enum Phase { ApplyExtrinsic(u32), Finalization, Initialization }
#[derive(Encode, Decode, Debug, TypeInfo, Clone, PartialEq, Eq)]
pub struct EventRecord<E: Debug + TypeInfo, T> { pub phase: Phase, pub event: E, pub topics: Vec<T> }
pub type RefCount = u32;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> { pub nonce: Nonce, pub consumers: RefCount, pub providers: RefCount, pub sufficients: RefCount, pub data: AccountData }
#[derive(Eq, PartialEq, Debug)] pub enum RefStatus { Referenced, Unreferenced }
#[derive(Eq, PartialEq, Debug)] pub enum IncRefStatus { Created, Existed }
#[derive(Eq, PartialEq, Debug)] pub enum DecRefStatus { Reaped, Exists }
pub type ConsumedWeight = Weight;
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}
pub trait ConsumerLimits { fn max_consumers() -> RefCount; fn max_overflow() -> RefCount; }
impl<const Z: u32> ConsumerLimits for ConstU32<Z> { fn max_consumers() -> u32 { Z } fn max_overflow() -> u32 { Z } }
impl<const M: u32, const O: u32> ConsumerLimits for (ConstU32<M>, ConstU32<O>) { fn max_consumers() -> u32 { M } fn max_overflow() -> u32 { O } }
pub type Event_<T> = Event<T>;
pub type Key = Vec<u8>;
pub type KeyValue = (Vec<u8>, Vec<u8>);

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use crate::pallet_prelude::*;

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>> + From<RawOrigin<Self::AccountId>> + Clone + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId> + Debug;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>> + GetDispatchInfo;
		type RuntimeTask;
		type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + Default + Copy + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen;
		type Hashing: sp_runtime::traits::Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen + std::hash::Hash;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		type Block: Parameter + Member + sp_runtime::traits::Block;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<RuntimeDbWeight>;
		type Version;
		type PalletInfo: PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: OnNewAccount<Self::AccountId>;
		type OnKilledAccount: OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode;
		type MaxConsumers: ConsumerLimits;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let _ = remark; Ok(().into()) }
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo { ensure_root(origin)?; let _ = pages; Ok(().into()) }
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo { ensure_root(origin)?; let _ = code; Ok(().into()) }
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::zero(), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<KeyValue>) -> DispatchResultWithPostInfo { ensure_root(origin)?; for i in &items { frame_support::storage::unhashed::put_raw(&i.0, &i.1); } Ok(().into()) }
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::zero())]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo { let who = ensure_signed(origin)?; let hash = <T::Hashing as sp_runtime::traits::Hash>::hash(&remark[..]); Self::deposit_event(Event::Remarked { sender: who, hash }); Ok(().into()) }
	}
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> { InvalidSpecName, SpecVersionNeedsToIncrease, FailedToExtractRuntimeVersion, NonDefaultComposite, NonZeroRefCount, CallFiltered }
	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicCount<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type ExtrinsicIndex_<T: Config> = StorageValue<_, u32>;
	#[pallet::storage]
	pub type BlockWeight<T: Config> = StorageValue<_, Weight, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_number)]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn event_count)]
	pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> { #[serde(skip)] pub _config: PhantomData<T> }
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			let mut h = T::Hash::default();
			for b in h.as_mut() { *b = 69; }
			<BlockHash<T>>::insert(BlockNumberFor::<T>::zero(), h);
			<ParentHash<T>>::put(h);
		}
	}
}
pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type HeaderFor<T> = sp_runtime::traits::HeaderFor<<T as crate::Config>::Block>;
	pub type BlockNumberFor<T> = <HeaderFor<T> as sp_runtime::traits::Header>::Number;
	pub type ExtrinsicFor<T> = <<T as crate::Config>::Block as sp_runtime::traits::Block>::Extrinsic;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}
use pallet_prelude::BlockNumberFor;
impl<T: Config> Pallet<T> {
	pub fn deposit_event(e: impl Into<T::RuntimeEvent>) { Self::deposit_event_indexed(&[], e.into()) }
	pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
		if Self::block_number().is_zero() { return; }
		let n = EventCount::<T>::get();
		EventCount::<T>::put(n + 1);
		Events::<T>::append::<EventRecord<T::RuntimeEvent, T::Hash>, _>(EventRecord { phase: Phase::Initialization, event, topics: topics.to_vec() });
	}
	pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> { Events::<T>::get() }
	pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecord<T::RuntimeEvent, T::Hash>>> { Events::<T>::get().into_iter().map(Box::new) }
	pub fn reset_events() { Events::<T>::kill(); EventCount::<T>::kill(); }
	pub fn assert_has_event(e: T::RuntimeEvent) { let ev = Self::events(); assert!(ev.iter().any(|r| r.event == e), "expected event {e:?} not found in {ev:?}") }
	pub fn assert_last_event(e: T::RuntimeEvent) { assert_eq!(Self::events().last().expect("no events").event, e) }
	pub fn set_block_number(n: BlockNumberFor<T>) { Number::<T>::put(n) }
	pub fn current_block_number() -> BlockNumberFor<T> { Number::<T>::get() }
	pub fn set_parent_hash(h: T::Hash) { ParentHash::<T>::put(h) }
	pub fn set_extrinsic_index(i: u32) { frame_support::storage::unhashed::put(b":extrinsic_index", &i) }
	pub fn extrinsic_index() -> Option<u32> { frame_support::storage::unhashed::get(b":extrinsic_index") }
	pub fn initialize(n: &BlockNumberFor<T>, parent: &T::Hash, _d: &sp_runtime::Digest) { Number::<T>::put(n); ParentHash::<T>::put(parent); BlockHash::<T>::insert(*n - One::one(), parent); Self::reset_events(); Self::set_extrinsic_index(0); BlockWeight::<T>::kill(); }
	pub fn finalize() -> HF<T::Block> where HF<T::Block>: sp_runtime::traits::Header<Hash = T::Hash> { sp_runtime::traits::Header::new(Self::block_number(), Default::default(), Default::default(), Self::parent_hash(), Default::default()) }
	pub fn block_weight() -> Weight { BlockWeight::<T>::get() }
	pub fn register_extra_weight_unchecked(w: Weight, _c: DispatchClass) { BlockWeight::<T>::mutate(|x| x.saturating_accrue(w)) }
	pub fn set_block_consumed_resources(w: Weight, _len: usize) { BlockWeight::<T>::put(w) }
	pub fn note_finished_initialize() {}
	pub fn note_finished_extrinsics() {}
	pub fn account_nonce(w: impl EncodeLike<T::AccountId>) -> T::Nonce { Account::<T>::get(w).nonce }
	pub fn inc_account_nonce(w: impl EncodeLike<T::AccountId>) { Account::<T>::mutate(w, |a| a.nonce += T::Nonce::one()) }
	pub fn account_exists(w: &T::AccountId) -> bool { Account::<T>::contains_key(w) }
	fn on_created_account(who: T::AccountId, _a: &mut AccountInfo<T::Nonce, T::AccountData>) { T::OnNewAccount::on_new_account(&who); Self::deposit_event(Event::NewAccount { account: who }); }
	fn on_killed_account(who: T::AccountId) { T::OnKilledAccount::on_killed_account(&who); Self::deposit_event(Event::KilledAccount { account: who }); }
	pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers == 0 && a.sufficients == 0 { a.providers = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created } else { a.providers = a.providers.saturating_add(1); IncRefStatus::Existed }
		})
	}
	pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
		Account::<T>::try_mutate_exists(who, |m| {
			if let Some(mut a) = m.take() {
				if a.providers == 0 { a.providers = 1; }
				match (a.providers, a.consumers, a.sufficients) {
					(1, 0, 0) => { Self::on_killed_account(who.clone()); Ok(DecRefStatus::Reaped) },
					(1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
					(x, _, _) => { a.providers = x - 1; *m = Some(a); Ok(DecRefStatus::Exists) },
				}
			} else { Ok(DecRefStatus::Reaped) }
		})
	}
	pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
		Account::<T>::mutate(who, |a| {
			if a.providers + a.sufficients == 0 { a.sufficients = 1; Self::on_created_account(who.clone(), a); IncRefStatus::Created } else { a.sufficients = a.sufficients.saturating_add(1); IncRefStatus::Existed }
		})
	}
	pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
		Account::<T>::mutate_exists(who, |m| {
			if let Some(mut a) = m.take() {
				match (a.sufficients, a.providers) {
					(0, 0) | (1, 0) => { Self::on_killed_account(who.clone()); DecRefStatus::Reaped },
					(x, _) => { a.sufficients = x.saturating_sub(1); *m = Some(a); DecRefStatus::Exists },
				}
			} else { DecRefStatus::Reaped }
		})
	}
	pub fn providers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).providers }
	pub fn consumers(who: &T::AccountId) -> RefCount { Account::<T>::get(who).consumers }
	pub fn sufficients(who: &T::AccountId) -> RefCount { Account::<T>::get(who).sufficients }
	pub fn reference_count(who: &T::AccountId) -> RefCount { let a = Account::<T>::get(who); a.consumers + a.providers + a.sufficients }
	pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
		Account::<T>::try_mutate(who, |a| if a.providers > 0 { if a.consumers < T::MaxConsumers::max_consumers() { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::TooManyConsumers) } } else { Err(DispatchError::NoProviders) })
	}
	pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> { Account::<T>::try_mutate(who, |a| if a.providers > 0 { a.consumers = a.consumers.saturating_add(1); Ok(()) } else { Err(DispatchError::NoProviders) }) }
	pub fn dec_consumers(who: &T::AccountId) { Account::<T>::mutate(who, |a| { if a.consumers > 0 { a.consumers -= 1 } }) }
	pub fn is_provider_required(who: &T::AccountId) -> bool { Account::<T>::get(who).consumers != 0 }
	pub fn can_dec_provider(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.consumers == 0 || a.providers > 1 }
	pub fn can_inc_consumer(who: &T::AccountId) -> bool { let a = Account::<T>::get(who); a.providers > 0 && a.consumers < T::MaxConsumers::max_consumers() }
	pub fn can_accrue_consumers(who: &T::AccountId, n: u32) -> bool { let a = Account::<T>::get(who); a.providers > 0 && a.consumers.checked_add(n).map_or(false, |x| x <= T::MaxConsumers::max_consumers()) }
}
impl<T: Config> BlockNumberProvider for Pallet<T> { type BlockNumber = BlockNumberFor<T>; fn current_block_number() -> Self::BlockNumber { Number::<T>::get() } }
impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
	fn get(k: &T::AccountId) -> T::AccountData { Account::<T>::get(k).data }
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
		let account = Account::<T>::get(k);
		let is_default = account.data == T::AccountData::default();
		let mut some = if is_default { None } else { Some(account.data) };
		let r = f(&mut some)?;
		if Self::providers(k) > 0 || Self::sufficients(k) > 0 { Account::<T>::mutate(k, |a| a.data = some.unwrap_or_default()); }
		Ok(r)
	}
}
pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> { fn created(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::inc_providers(t); Ok(()) } fn killed(t: &T::AccountId) -> Result<(), DispatchError> { Pallet::<T>::dec_providers(t).map(|_| ()) } }
pub struct Consumer<T>(PhantomData<T>);
pub struct ChainContext<T>(PhantomData<T>);
impl<T: Config> Lookup for ChainContext<T> { type Source = <T::Lookup as StaticLookup>::Source; type Target = T::AccountId; fn lookup(&self, s: Self::Source) -> Result<T::AccountId, sp_runtime::traits::LookupError> { T::Lookup::lookup(s) } }

pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> { match o.into() { Ok(RawOrigin::Signed(t)) => Ok(t), _ => Err(BadOrigin) } }
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(None), Ok(RawOrigin::Signed(t)) => Ok(Some(t)), _ => Err(BadOrigin) } }
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::Root) => Ok(()), _ => Err(BadOrigin) } }
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> { match o.into() { Ok(RawOrigin::None) => Ok(()), _ => Err(BadOrigin) } }
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(()), r => Err(O::from(r)) }) } }
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, X> EnsureOriginWithArg<O, X> for EnsureRoot<A> { type Success = (); fn try_origin(o: O, _: &X) -> Result<(), O> { <Self as EnsureOrigin<O>>::try_origin(o) } }
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> { type Success = S::Type; fn try_origin(o: O) -> Result<S::Type, O> { o.into().and_then(|o| match o { RawOrigin::Root => Ok(S::get()), r => Err(O::from(r)) }) } }
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(w) => Ok(w), r => Err(O::from(r)) }) } }
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, X> EnsureOriginWithArg<O, X> for EnsureSigned<A> { type Success = A; fn try_origin(o: O, _: &X) -> Result<A, O> { <Self as EnsureOrigin<O>>::try_origin(o) } }
pub struct EnsureSignedBy<W, A>(PhantomData<(W, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, W: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<W, A> { type Success = A; fn try_origin(o: O) -> Result<A, O> { o.into().and_then(|o| match o { RawOrigin::Signed(ref w) if W::contains(w) => Ok(w.clone()), r => Err(O::from(r)) }) } }
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> { type Success = (); fn try_origin(o: O) -> Result<(), O> { o.into().and_then(|o| match o { RawOrigin::None => Ok(()), r => Err(O::from(r)) }) } }
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> { type Success = S; fn try_origin(o: O) -> Result<S, O> { Err(o) } }
#[allow(unused)] fn _u(_: DispatchResult) {}
