//! Stand-in for `pallet-uniques` (polkadot-v1.7.2): the functions and calls this repository uses.
use codec::{Decode, Encode, MaxEncodedLen};
use frame_support::pallet_prelude::*;
use frame_support::traits::tokens::Locker;
use frame_support::traits::{BalanceStatus::Reserved, Currency, EnsureOriginWithArg, ReservableCurrency};
use frame_system::pallet_prelude::*;
use sp_runtime::traits::{Saturating, StaticLookup, Zero};
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult};
pub use pallet::*;
pub mod weights {
	use frame_support::weights::Weight;
	pub trait WeightInfo { fn create() -> Weight { Weight::zero() } fn mint() -> Weight { Weight::zero() } fn transfer() -> Weight { Weight::zero() } }
	impl WeightInfo for () {}
}
pub use weights::WeightInfo;
pub type DepositBalanceOf<T> = <<T as Config>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type CollectionDetailsFor<T> = CollectionDetails<<T as frame_system::Config>::AccountId, DepositBalanceOf<T>>;
pub type ItemDetailsFor<T> = ItemDetails<<T as frame_system::Config>::AccountId, DepositBalanceOf<T>>;
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo, MaxEncodedLen)]
pub struct CollectionDetails<AccountId, DepositBalance> {
	pub owner: AccountId, pub issuer: AccountId, pub admin: AccountId, pub freezer: AccountId,
	pub total_deposit: DepositBalance, pub free_holding: bool, pub items: u32, pub item_metadatas: u32, pub attributes: u32, pub is_frozen: bool,
}
impl<A, B> CollectionDetails<A, B> { pub fn destroy_witness(&self) -> DestroyWitness { DestroyWitness { items: self.items, item_metadatas: self.item_metadatas, attributes: self.attributes } } }
#[derive(Copy, Clone, Encode, Decode, Eq, PartialEq, Debug, TypeInfo)]
pub struct DestroyWitness { #[codec(compact)] pub items: u32, #[codec(compact)] pub item_metadatas: u32, #[codec(compact)] pub attributes: u32 }
#[derive(Clone, Encode, Decode, Eq, PartialEq, Debug, Default, TypeInfo, MaxEncodedLen)]
pub struct ItemDetails<AccountId, DepositBalance> { pub owner: AccountId, pub approved: Option<AccountId>, pub is_frozen: bool, pub deposit: DepositBalance }

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type CollectionId: Member + Parameter + MaxEncodedLen + Copy;
		type ItemId: Member + Parameter + MaxEncodedLen + Copy;
		type Currency: ReservableCurrency<Self::AccountId>;
		type ForceOrigin: EnsureOrigin<Self::RuntimeOrigin>;
		type CreateOrigin: EnsureOriginWithArg<Self::RuntimeOrigin, Self::CollectionId, Success = Self::AccountId>;
		type Locker: Locker<Self::CollectionId, Self::ItemId>;
		#[pallet::constant]
		type CollectionDeposit: Get<DepositBalanceOf<Self>>;
		#[pallet::constant]
		type ItemDeposit: Get<DepositBalanceOf<Self>>;
		#[pallet::constant]
		type MetadataDepositBase: Get<DepositBalanceOf<Self>>;
		#[pallet::constant]
		type AttributeDepositBase: Get<DepositBalanceOf<Self>>;
		#[pallet::constant]
		type DepositPerByte: Get<DepositBalanceOf<Self>>;
		#[pallet::constant]
		type StringLimit: Get<u32>;
		#[pallet::constant]
		type KeyLimit: Get<u32>;
		#[pallet::constant]
		type ValueLimit: Get<u32>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::storage]
	pub type Class<T: Config> = StorageMap<_, Blake2_128Concat, T::CollectionId, CollectionDetails<T::AccountId, DepositBalanceOf<T>>>;
	#[pallet::storage]
	pub type Account<T: Config> = StorageNMap<_, (NMapKey<Blake2_128Concat, T::AccountId>, NMapKey<Blake2_128Concat, T::CollectionId>, NMapKey<Blake2_128Concat, T::ItemId>), (), OptionQuery>;
	#[pallet::storage]
	pub type CollectionAccount<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::AccountId, Blake2_128Concat, T::CollectionId, (), OptionQuery>;
	#[pallet::storage]
	pub type Asset<T: Config> = StorageDoubleMap<_, Blake2_128Concat, T::CollectionId, Blake2_128Concat, T::ItemId, ItemDetails<T::AccountId, DepositBalanceOf<T>>, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		Created { collection: T::CollectionId, creator: T::AccountId, owner: T::AccountId },
		ForceCreated { collection: T::CollectionId, owner: T::AccountId },
		Destroyed { collection: T::CollectionId },
		Issued { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		Transferred { collection: T::CollectionId, item: T::ItemId, from: T::AccountId, to: T::AccountId },
		Burned { collection: T::CollectionId, item: T::ItemId, owner: T::AccountId },
		Frozen { collection: T::CollectionId, item: T::ItemId },
		Thawed { collection: T::CollectionId, item: T::ItemId },
		CollectionFrozen { collection: T::CollectionId },
		CollectionThawed { collection: T::CollectionId },
	}
	#[pallet::error]
	pub enum Error<T> {
		NoPermission, UnknownCollection, AlreadyExists, WrongOwner, BadWitness, InUse, Frozen, WrongDelegate, NoDelegate, Unapproved, Unaccepted, Locked,
		MaxSupplyReached, MaxSupplyAlreadySet, MaxSupplyTooSmall, UnknownItem, NotForSale, BidTooLow, NoMetadata, WrongMetadata, AttributeNotFound,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(T::WeightInfo::create())]
		pub fn create(origin: OriginFor<T>, collection: T::CollectionId, admin: <T::Lookup as StaticLookup>::Source) -> DispatchResult {
			let owner = T::CreateOrigin::ensure_origin(origin, &collection)?;
			let admin = T::Lookup::lookup(admin)?;
			Self::do_create_collection(collection, owner.clone(), admin.clone(), T::CollectionDeposit::get(), false, Event::Created { collection, creator: owner, owner: admin })
		}
		#[pallet::call_index(6)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn freeze(origin: OriginFor<T>, collection: T::CollectionId, item: T::ItemId) -> DispatchResult {
			let origin = frame_system::ensure_signed(origin)?;
			let mut details = Asset::<T>::get(collection, item).ok_or(Error::<T>::UnknownItem)?;
			let c = Class::<T>::get(collection).ok_or(Error::<T>::UnknownCollection)?;
			ensure!(c.freezer == origin, Error::<T>::NoPermission);
			details.is_frozen = true;
			Asset::<T>::insert(collection, item, &details);
			Self::deposit_event(Event::Frozen { collection, item });
			Ok(())
		}
		#[pallet::call_index(9)]
		#[pallet::weight(T::WeightInfo::transfer())]
		pub fn freeze_collection(origin: OriginFor<T>, collection: T::CollectionId) -> DispatchResult {
			let origin = frame_system::ensure_signed(origin)?;
			Class::<T>::try_mutate(collection, |m| {
				let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?;
				ensure!(origin == d.freezer, Error::<T>::NoPermission);
				d.is_frozen = true;
				Self::deposit_event(Event::CollectionFrozen { collection });
				Ok(())
			})
		}
	}
}
impl<T: Config> Pallet<T> {
	pub fn do_transfer(collection: T::CollectionId, item: T::ItemId, dest: T::AccountId, with_details: impl FnOnce(&CollectionDetailsFor<T>, &mut ItemDetailsFor<T>) -> DispatchResult) -> DispatchResult {
		let cd = Class::<T>::get(collection).ok_or(Error::<T>::UnknownCollection)?;
		ensure!(!cd.is_frozen, Error::<T>::Frozen);
		ensure!(!T::Locker::is_locked(collection, item), Error::<T>::Locked);
		let mut details = Asset::<T>::get(collection, item).ok_or(Error::<T>::UnknownItem)?;
		ensure!(!details.is_frozen, Error::<T>::Frozen);
		with_details(&cd, &mut details)?;
		Account::<T>::remove((&details.owner, &collection, &item));
		Account::<T>::insert((&dest, &collection, &item), ());
		let origin = details.owner;
		details.owner = dest;
		details.approved = None;
		Asset::<T>::insert(collection, item, &details);
		Self::deposit_event(Event::Transferred { collection, item, from: origin, to: details.owner });
		Ok(())
	}
	pub fn do_create_collection(collection: T::CollectionId, owner: T::AccountId, admin: T::AccountId, deposit: DepositBalanceOf<T>, free_holding: bool, event: Event<T>) -> DispatchResult {
		ensure!(!Class::<T>::contains_key(collection), Error::<T>::InUse);
		T::Currency::reserve(&owner, deposit)?;
		Class::<T>::insert(collection, CollectionDetails { owner: owner.clone(), issuer: admin.clone(), admin: admin.clone(), freezer: admin, total_deposit: deposit, free_holding, items: 0, item_metadatas: 0, attributes: 0, is_frozen: false });
		CollectionAccount::<T>::insert(&owner, collection, ());
		Self::deposit_event(event);
		Ok(())
	}
	pub fn do_destroy_collection(collection: T::CollectionId, witness: DestroyWitness, maybe_check_owner: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> {
		Class::<T>::try_mutate_exists(collection, |m| {
			let d = m.take().ok_or(Error::<T>::UnknownCollection)?;
			if let Some(o) = maybe_check_owner { ensure!(d.owner == o, Error::<T>::NoPermission); }
			ensure!(d.items == witness.items, Error::<T>::BadWitness);
			ensure!(d.item_metadatas == witness.item_metadatas, Error::<T>::BadWitness);
			ensure!(d.attributes == witness.attributes, Error::<T>::BadWitness);
			for (item, details) in Asset::<T>::drain_prefix(collection) { Account::<T>::remove((&details.owner, &collection, &item)); }
			CollectionAccount::<T>::remove(&d.owner, collection);
			T::Currency::unreserve(&d.owner, d.total_deposit);
			Self::deposit_event(Event::Destroyed { collection });
			Ok(DestroyWitness { items: d.items, item_metadatas: d.item_metadatas, attributes: d.attributes })
		})
	}
	pub fn do_mint(collection: T::CollectionId, item: T::ItemId, owner: T::AccountId, with_details: impl FnOnce(&CollectionDetailsFor<T>) -> DispatchResult) -> DispatchResult {
		ensure!(!Asset::<T>::contains_key(collection, item), Error::<T>::AlreadyExists);
		Class::<T>::try_mutate(collection, |m| -> DispatchResult {
			let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?;
			with_details(d)?;
			d.items = d.items.checked_add(1).ok_or(ArithmeticError::Overflow)?;
			let deposit = if d.free_holding { Zero::zero() } else { T::ItemDeposit::get() };
			T::Currency::reserve(&d.owner, deposit)?;
			d.total_deposit = d.total_deposit.saturating_add(deposit);
			let owner = owner.clone();
			Account::<T>::insert((&owner, &collection, &item), ());
			Asset::<T>::insert(collection, item, ItemDetails { owner, approved: None, is_frozen: false, deposit });
			Ok(())
		})?;
		Self::deposit_event(Event::Issued { collection, item, owner });
		Ok(())
	}
	pub fn do_burn(collection: T::CollectionId, item: T::ItemId, with_details: impl FnOnce(&CollectionDetailsFor<T>, &ItemDetailsFor<T>) -> DispatchResult) -> DispatchResult {
		ensure!(!T::Locker::is_locked(collection, item), Error::<T>::Locked);
		let owner = Class::<T>::try_mutate(collection, |m| -> Result<T::AccountId, DispatchError> {
			let d = m.as_mut().ok_or(Error::<T>::UnknownCollection)?;
			let i = Asset::<T>::get(collection, item).ok_or(Error::<T>::UnknownCollection)?;
			with_details(d, &i)?;
			T::Currency::unreserve(&d.owner, i.deposit);
			d.total_deposit = d.total_deposit.saturating_sub(i.deposit);
			d.items = d.items.saturating_sub(1);
			Ok(i.owner)
		})?;
		Asset::<T>::remove(collection, item);
		Account::<T>::remove((&owner, &collection, &item));
		Self::deposit_event(Event::Burned { collection, item, owner });
		Ok(())
	}
	pub fn owner(collection: T::CollectionId, item: T::ItemId) -> Option<T::AccountId> { Asset::<T>::get(collection, item).map(|i| i.owner) }
	pub fn collection_owner(collection: T::CollectionId) -> Option<T::AccountId> { Class::<T>::get(collection).map(|i| i.owner) }
	pub fn get_destroy_witness(collection: &T::CollectionId) -> Option<DestroyWitness> { Class::<T>::get(collection).map(|a| a.destroy_witness()) }
	pub fn owned(who: &T::AccountId) -> impl Iterator<Item = (T::CollectionId, T::ItemId)> { Account::<T>::iter_key_prefix((who.clone(),)).collect::<Vec<_>>().into_iter() }
	pub fn owned_in_collection(collection: &T::CollectionId, who: &T::AccountId) -> impl Iterator<Item = T::ItemId> { Account::<T>::iter_key_prefix((who.clone(), *collection)).collect::<Vec<_>>().into_iter() }
}
impl<T: Config> frame_support::traits::nonfungibles::Inspect<T::AccountId> for Pallet<T> {
	type ItemId = T::ItemId;
	type CollectionId = T::CollectionId;
	fn owner(c: &Self::CollectionId, i: &Self::ItemId) -> Option<T::AccountId> { Self::owner(*c, *i) }
	fn collection_owner(c: &Self::CollectionId) -> Option<T::AccountId> { Self::collection_owner(*c) }
}
impl<T: Config> frame_support::traits::nonfungibles::Create<T::AccountId> for Pallet<T> {
	fn create_collection(c: &T::CollectionId, who: &T::AccountId, admin: &T::AccountId) -> DispatchResult {
		Self::do_create_collection(*c, who.clone(), admin.clone(), T::CollectionDeposit::get(), false, Event::Created { collection: *c, creator: who.clone(), owner: admin.clone() })
	}
}
impl<T: Config> frame_support::traits::nonfungibles::Destroy<T::AccountId> for Pallet<T> {
	type DestroyWitness = DestroyWitness;
	fn get_destroy_witness(c: &T::CollectionId) -> Option<DestroyWitness> { Self::get_destroy_witness(c) }
	fn destroy(c: T::CollectionId, w: DestroyWitness, o: Option<T::AccountId>) -> Result<DestroyWitness, DispatchError> { Self::do_destroy_collection(c, w, o) }
}
impl<T: Config> frame_support::traits::nonfungibles::Mutate<T::AccountId> for Pallet<T> {
	fn mint_into(c: &T::CollectionId, i: &T::ItemId, who: &T::AccountId) -> DispatchResult { Self::do_mint(*c, *i, who.clone(), |_| Ok(())) }
	fn burn(c: &T::CollectionId, i: &T::ItemId, check: Option<&T::AccountId>) -> DispatchResult {
		Self::do_burn(*c, *i, |_, d| { if let Some(o) = check { if *o != d.owner { return Err(Error::<T>::NoPermission.into()); } } Ok(()) })
	}
}
impl<T: Config> frame_support::traits::nonfungibles::Transfer<T::AccountId> for Pallet<T> {
	fn transfer(c: &T::CollectionId, i: &T::ItemId, d: &T::AccountId) -> DispatchResult { Self::do_transfer(*c, *i, d.clone(), |_, _| Ok(())) }
}
impl<T: Config> frame_support::traits::nonfungibles::InspectEnumerable<T::AccountId> for Pallet<T> {
	type CollectionsIterator = std::vec::IntoIter<T::CollectionId>;
	type ItemsIterator = std::vec::IntoIter<T::ItemId>;
	type OwnedIterator = std::vec::IntoIter<(T::CollectionId, T::ItemId)>;
	type OwnedInCollectionIterator = std::vec::IntoIter<T::ItemId>;
	fn collections() -> Self::CollectionsIterator { Class::<T>::iter_keys().collect::<Vec<_>>().into_iter() }
	fn items(c: &T::CollectionId) -> Self::ItemsIterator { Asset::<T>::iter_prefix(*c).map(|x| x.0).collect::<Vec<_>>().into_iter() }
	fn owned(who: &T::AccountId) -> Self::OwnedIterator { Account::<T>::iter_key_prefix((who.clone(),)).collect::<Vec<_>>().into_iter() }
	fn owned_in_collection(c: &T::CollectionId, who: &T::AccountId) -> Self::OwnedInCollectionIterator { Account::<T>::iter_key_prefix((who.clone(), *c)).collect::<Vec<_>>().into_iter() }
}
#[allow(unused)] fn _r() -> frame_support::traits::BalanceStatus { Reserved }
