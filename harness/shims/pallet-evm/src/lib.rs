//! Stand-in for `pallet-evm` (polkadot-v1.7): configuration, runner interface and account codes; no interpreter.
pub use evm::Config as EvmConfig;
pub use fp_evm::{Account, CallInfo, Context, CreateInfo, ExecutionInfoV2, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, FeeCalculator, IsPrecompileResult, Log, Precompile, PrecompileFailure, PrecompileHandle, PrecompileOutput, PrecompileResult, PrecompileSet, TransactionValidationError, Transfer};
use codec::{Decode, Encode};
use frame_support::pallet_prelude::*;
use frame_support::traits::{StorageInstance, Time};
use frame_support::weights::Weight;
use sp_core::{H160, H256, U256};
pub use runner::Runner;
pub static SHANGHAI_CONFIG: EvmConfig = EvmConfig::shanghai();
pub trait AddressMapping<A> { fn into_account_id(address: H160) -> A; }
pub trait GasWeightMapping { fn gas_to_weight(gas: u64, without_base_weight: bool) -> Weight; fn weight_to_gas(weight: Weight) -> u64; }
impl GasWeightMapping for () { fn gas_to_weight(g: u64, _: bool) -> Weight { Weight::from_parts(g, 0) } fn weight_to_gas(w: Weight) -> u64 { w.ref_time() } }
pub trait Config: frame_system::Config {
	type FeeCalculator: FeeCalculator;
	type GasWeightMapping: GasWeightMapping;
	type AddressMapping: AddressMapping<Self::AccountId>;
	type PrecompilesType: PrecompileSet;
	type PrecompilesValue: Get<Self::PrecompilesType>;
	type ChainId: Get<u64>;
	type BlockGasLimit: Get<U256>;
	type Runner: Runner<Self>;
	type OnChargeTransaction: OnChargeEVMTransaction<Self>;
	type Timestamp: Time;
	fn config() -> &'static EvmConfig { &SHANGHAI_CONFIG }
}
pub enum Error<T> { BalanceLow, FeeOverflow, PaymentOverflow, WithdrawFailed, GasPriceTooLow, InvalidNonce, GasLimitTooLow, GasLimitTooHigh, InvalidChainId, InvalidSignature, Reentrancy, TransactionMustComeFromEOA, Undefined, #[doc(hidden)] __Ignore(std::marker::PhantomData<T>) }
impl<T> Error<T> { pub fn name(&self) -> &'static str { match self { Self::BalanceLow => "BalanceLow", Self::FeeOverflow => "FeeOverflow", Self::PaymentOverflow => "PaymentOverflow", Self::WithdrawFailed => "WithdrawFailed", Self::GasPriceTooLow => "GasPriceTooLow", Self::InvalidNonce => "InvalidNonce", Self::GasLimitTooLow => "GasLimitTooLow", Self::GasLimitTooHigh => "GasLimitTooHigh", Self::InvalidChainId => "InvalidChainId", Self::InvalidSignature => "InvalidSignature", Self::Reentrancy => "Reentrancy", Self::TransactionMustComeFromEOA => "TransactionMustComeFromEOA", _ => "Undefined" } } }
impl<T> std::fmt::Debug for Error<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.name()) } }
impl<T> From<TransactionValidationError> for Error<T> {
	fn from(e: TransactionValidationError) -> Self {
		use TransactionValidationError as V;
		match e { V::GasLimitTooLow => Self::GasLimitTooLow, V::GasLimitTooHigh => Self::GasLimitTooHigh, V::BalanceTooLow => Self::BalanceLow, V::TxNonceTooLow | V::TxNonceTooHigh => Self::InvalidNonce, V::InvalidChainId => Self::InvalidChainId, V::InvalidSignature => Self::InvalidSignature, V::GasPriceTooLow | V::PriorityFeeTooHigh | V::InvalidFeeInput => Self::GasPriceTooLow, V::UnknownError => Self::Undefined }
	}
}
pub trait OnChargeEVMTransaction<T: Config> {
	type LiquidityInfo: Default;
	fn withdraw_fee(who: &H160, fee: U256) -> Result<Self::LiquidityInfo, Error<T>>;
	fn can_withdraw(who: &H160, amount: U256) -> Result<(), Error<T>>;
	fn correct_and_deposit_fee(who: &H160, corrected_fee: U256, base_fee: U256, already_withdrawn: Self::LiquidityInfo) -> Result<Self::LiquidityInfo, Error<T>>;
	fn pay_priority_fee(tip: Self::LiquidityInfo);
}
#[derive(Debug)]
pub struct RunnerError<E> { pub error: E, pub weight: Weight }
pub mod runner {
	use super::*;
	pub trait Runner<T: Config> {
		type Error: Into<Error<T>>;
		fn validate(source: H160, target: Option<H160>, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, evm_config: &EvmConfig) -> Result<(), RunnerError<Self::Error>>;
		fn call(source: H160, target: H160, input: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CallInfo, RunnerError<Self::Error>>;
		fn create(source: H160, init: Vec<u8>, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
		fn create2(source: H160, init: Vec<u8>, salt: H256, value: U256, gas_limit: u64, max_fee_per_gas: Option<U256>, max_priority_fee_per_gas: Option<U256>, nonce: Option<U256>, access_list: Vec<(H160, Vec<H256>)>, is_transactional: bool, validate: bool, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>, config: &EvmConfig) -> Result<CreateInfo, RunnerError<Self::Error>>;
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct CodeMetadata { pub size: u64, pub hash: H256 }
pub struct CodesPrefix;
impl StorageInstance for CodesPrefix { const STORAGE_PREFIX: &'static str = "AccountCodes"; fn pallet_prefix() -> &'static str { "EVM" } }
type Codes = frame_support::storage::types::StorageMap<CodesPrefix, frame_support::Blake2_128Concat, H160, Vec<u8>, ValueQuery>;
pub struct AccountCodes<T>(std::marker::PhantomData<T>);
impl<T> AccountCodes<T> { pub fn get(a: H160) -> Vec<u8> { Codes::get(a) } pub fn insert(a: H160, c: Vec<u8>) { Codes::insert(a, c) } pub fn remove(a: H160) { Codes::remove(a) } }
pub struct Pallet<T>(std::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn account_code_metadata(a: H160) -> CodeMetadata { let c = Codes::get(a); CodeMetadata { size: c.len() as u64, hash: H256(sp_io::hashing::keccak_256(&c)) } }
	pub fn account_basic(a: &H160) -> (Account, Weight) {
		let n: U256 = sp_runtime::traits::UniqueSaturatedInto::<u128>::unique_saturated_into(frame_system::Pallet::<T>::account_nonce(&T::AddressMapping::into_account_id(*a))).into();
		(Account { nonce: n, balance: U256::zero() }, Weight::zero())
	}
}
