//! Stand-in for `pallet-transaction-payment`: fee computation (constant multiplier 1) and the charging extension.
use codec::{Decode, Encode};
use frame_support::dispatch::{DispatchClass, DispatchInfo, DispatchResult, Pays, PostDispatchInfo};
use frame_support::pallet_prelude::*;
use frame_support::weights::WeightToFee;
use sp_runtime::traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf, Saturating, SignedExtension, Zero};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError, ValidTransaction};
use sp_runtime::{FixedPointOperand, FixedU128};
pub use pallet::*;
pub type Multiplier = FixedU128;
pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &T::AccountId, call: &T::RuntimeCall, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, fee: Self::Balance, tip: Self::Balance) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(who: &T::AccountId, dispatch_info: &DispatchInfoOf<T::RuntimeCall>, post_info: &PostDispatchInfoOf<T::RuntimeCall>, corrected_fee: Self::Balance, tip: Self::Balance, already_withdrawn: Self::LiquidityInfo) -> Result<(), TransactionValidityError>;
}
pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier;
		type WeightToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> { TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOf<T>, tip: BalanceOf<T> } }
}
impl<T: Config> Pallet<T> {
	pub fn next_fee_multiplier() -> Multiplier { Multiplier::from_u32(1) }
	fn raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> BalanceOf<T> {
		if pays == Pays::No { return tip }
		let cap = T::BlockWeights::get().max_block;
		let base = T::WeightToFee::weight_to_fee(&T::BlockWeights::get().get(class).base_extrinsic.min(cap));
		let lf = T::LengthToFee::weight_to_fee(&Weight::from_parts(len as u64, 0));
		base.saturating_add(lf).saturating_add(T::WeightToFee::weight_to_fee(&weight.min(cap))).saturating_add(tip)
	}
	pub fn compute_fee(len: u32, info: &DispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> { Self::raw(len, info.weight, tip, info.pays_fee, info.class) }
	pub fn compute_actual_fee(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: BalanceOf<T>) -> BalanceOf<T> { Self::raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class) }
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>) where BalanceOf<T>: codec::HasCompact;
impl<T: Config> ChargeTransactionPayment<T> where BalanceOf<T>: codec::HasCompact { pub fn from(fee: BalanceOf<T>) -> Self { Self(fee) } }
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> where BalanceOf<T>: codec::HasCompact { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "ChargeTransactionPayment") } }
impl<T: Config + Send + Sync + Eq + Clone> SignedExtension for ChargeTransactionPayment<T>
where T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>, BalanceOf<T>: Send + Sync + FixedPointOperand + codec::HasCompact {
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, T::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> { Ok(()) }
	fn validate(&self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> TransactionValidity {
		let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
		T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.0)?;
		Ok(ValidTransaction::default())
	}
	fn pre_dispatch(self, who: &T::AccountId, call: &T::RuntimeCall, info: &DispatchInfoOf<T::RuntimeCall>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let fee = Pallet::<T>::compute_fee(len as u32, info, self.0);
		Ok((self.0, who.clone(), T::OnChargeTransaction::withdraw_fee(who, call, info, fee, self.0)?))
	}
	fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, len: usize, _r: &DispatchResult) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = pre {
			let actual = Pallet::<T>::compute_actual_fee(len as u32, info, post, tip);
			T::OnChargeTransaction::correct_and_deposit_fee(&who, info, post, actual, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::TransactionFeePaid { who, actual_fee: actual, tip });
		}
		Ok(())
	}
}
#[allow(unused)] fn _z<Z: Zero>(_: InvalidTransaction) {}
