//! Stand-in for `pallet-timestamp`.
pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{Time, UnixTime};
	use frame_system::{ensure_none, pallet_prelude::*};
	use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion};
	pub trait WeightInfo {}
	impl WeightInfo for () {}
	pub trait OnTimestampSet<M> { fn on_timestamp_set(m: M); }
	impl<M> OnTimestampSet<M> for () { fn on_timestamp_set(_: M) {} }
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment: Parameter + Default + AtLeast32Bit + Copy + MaxEncodedLen;
		type OnTimestampSet: OnTimestampSet<Self::Moment>;
		#[pallet::constant]
		type MinimumPeriod: Get<Self::Moment>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::zero())]
		pub fn set(origin: OriginFor<T>, now: T::Moment) -> DispatchResult { ensure_none(origin)?; Self::set_timestamp(now); Ok(()) }
	}
	impl<T: Config> Pallet<T> { pub fn get() -> T::Moment { Now::<T>::get() } pub fn set_timestamp(now: T::Moment) { Now::<T>::put(now); T::OnTimestampSet::on_timestamp_set(now); } }
	impl<T: Config> Time for Pallet<T> { type Moment = T::Moment; fn now() -> T::Moment { Now::<T>::get() } }
	impl<T: Config> UnixTime for Pallet<T> { fn now() -> std::time::Duration { std::time::Duration::from_millis(Now::<T>::get().saturated_into::<u64>()) } }
}
