//! Stand-in for `pallet-utility`: the three batch calls.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
	use frame_support::traits::{IsSubType, OriginTrait};
	use frame_system::pallet_prelude::*;
	use sp_runtime::traits::Dispatchable;
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { BatchInterrupted { index: u32, error: DispatchError }, BatchCompleted, BatchCompletedWithErrors, ItemCompleted, ItemFailed { error: DispatchError } }
	#[pallet::error]
	pub enum Error<T> { TooManyCalls }
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			for (index, call) in calls.into_iter().enumerate() {
				if let Err(e) = frame_support::storage::in_storage_layer(|| call.dispatch(origin.clone())) { Self::deposit_event(Event::<T>::BatchInterrupted { index: index as u32, error: e.error }); return Ok(().into()); }
				Self::deposit_event(Event::<T>::ItemCompleted);
			}
			Self::deposit_event(Event::<T>::BatchCompleted);
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::zero())]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			frame_support::storage::in_storage_layer(|| {
				for call in calls { call.dispatch(origin.clone())?; Self::deposit_event(Event::<T>::ItemCompleted); }
				Self::deposit_event(Event::<T>::BatchCompleted);
				Ok(().into())
			})
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::zero())]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let mut failed = false;
			for call in calls { match frame_support::storage::in_storage_layer(|| call.dispatch(origin.clone())) { Ok(_) => Self::deposit_event(Event::<T>::ItemCompleted), Err(e) => { failed = true; Self::deposit_event(Event::<T>::ItemFailed { error: e.error }) } } }
			Self::deposit_event(if failed { Event::<T>::BatchCompletedWithErrors } else { Event::<T>::BatchCompleted });
			Ok(().into())
		}
	}
	#[allow(unused)] fn _o<O: OriginTrait>(_: O) {}
}
