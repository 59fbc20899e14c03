//! Stand-in for `fp-evm` (polkadot-v1.7): precompile interfaces and the checks a transaction passes before it runs.
pub use evm::backend::{Basic as Account};
pub use evm::{Config, Context, ExitError, ExitFatal, ExitReason, ExitRevert, ExitSucceed, Log, Opcode, Transfer};
use frame_support::weights::Weight;
use sp_core::{H160, H256, U256};
use std::collections::BTreeMap;
pub trait FeeCalculator { fn min_gas_price() -> (U256, Weight); }
impl FeeCalculator for () { fn min_gas_price() -> (U256, Weight) { (U256::zero(), Weight::zero()) } }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct GenesisAccount { pub nonce: U256, pub balance: U256, pub storage: BTreeMap<H256, H256>, pub code: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct PrecompileOutput { pub exit_status: ExitSucceed, pub output: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PrecompileFailure { Error { exit_status: ExitError }, Revert { exit_status: ExitRevert, output: Vec<u8> }, Fatal { exit_status: ExitFatal } }
impl From<ExitError> for PrecompileFailure { fn from(e: ExitError) -> Self { Self::Error { exit_status: e } } }
pub type PrecompileResult = Result<PrecompileOutput, PrecompileFailure>;
pub trait PrecompileHandle {
	fn call(&mut self, to: H160, transfer: Option<Transfer>, input: Vec<u8>, gas_limit: Option<u64>, is_static: bool, context: &Context) -> (ExitReason, Vec<u8>);
	fn record_cost(&mut self, cost: u64) -> Result<(), ExitError>;
	fn record_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>, storage_growth: Option<u64>) -> Result<(), ExitError>;
	fn refund_external_cost(&mut self, ref_time: Option<u64>, proof_size: Option<u64>);
	fn remaining_gas(&self) -> u64;
	fn log(&mut self, address: H160, topics: Vec<H256>, data: Vec<u8>) -> Result<(), ExitError>;
	fn code_address(&self) -> H160;
	fn input(&self) -> &[u8];
	fn context(&self) -> &Context;
	fn is_static(&self) -> bool;
	fn gas_limit(&self) -> Option<u64>;
}
#[derive(Clone, Debug, PartialEq, Eq)] pub enum IsPrecompileResult { Answer { is_precompile: bool, extra_cost: u64 }, OutOfGas }
pub trait PrecompileSet {
	fn execute(&self, handle: &mut impl PrecompileHandle) -> Option<PrecompileResult>;
	fn is_precompile(&self, address: H160, remaining_gas: u64) -> IsPrecompileResult;
}
impl PrecompileSet for () {
	fn execute(&self, _: &mut impl PrecompileHandle) -> Option<PrecompileResult> { None }
	fn is_precompile(&self, _: H160, _: u64) -> IsPrecompileResult { IsPrecompileResult::Answer { is_precompile: false, extra_cost: 0 } }
}
pub trait Precompile { fn execute(handle: &mut impl PrecompileHandle) -> PrecompileResult; }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct WeightInfo { pub ref_time_limit: Option<u64>, pub proof_size_limit: Option<u64>, pub ref_time_usage: Option<u64>, pub proof_size_usage: Option<u64> }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct UsedGas { pub standard: U256, pub effective: U256 }
#[derive(Clone, Debug, PartialEq, Eq)] pub struct ExecutionInfoV2<T> { pub exit_reason: ExitReason, pub value: T, pub used_gas: UsedGas, pub weight_info: Option<WeightInfo>, pub logs: Vec<Log> }
pub type CallInfo = ExecutionInfoV2<Vec<u8>>;
pub type CreateInfo = ExecutionInfoV2<H160>;
#[derive(Clone, Debug)]
pub struct CheckEvmTransactionInput { pub chain_id: Option<u64>, pub to: Option<H160>, pub input: Vec<u8>, pub nonce: U256, pub gas_limit: U256, pub gas_price: Option<U256>, pub max_fee_per_gas: Option<U256>, pub max_priority_fee_per_gas: Option<U256>, pub value: U256, pub access_list: Vec<(H160, Vec<H256>)> }
#[derive(Debug)]
pub struct CheckEvmTransactionConfig<'c> { pub evm_config: &'c evm::Config, pub block_gas_limit: U256, pub base_fee: U256, pub chain_id: u64, pub is_transactional: bool }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TransactionValidationError { GasLimitTooLow, GasLimitTooHigh, GasPriceTooLow, PriorityFeeTooHigh, BalanceTooLow, TxNonceTooLow, TxNonceTooHigh, InvalidFeeInput, InvalidChainId, InvalidSignature, UnknownError }
use TransactionValidationError as Bad;
#[derive(Debug)]
pub struct CheckEvmTransaction<'c, E: From<Bad>> { pub config: CheckEvmTransactionConfig<'c>, pub transaction: CheckEvmTransactionInput, pub weight_limit: Option<Weight>, pub proof_size_base_cost: Option<u64>, _e: std::marker::PhantomData<E> }
impl<'c, E: From<Bad>> CheckEvmTransaction<'c, E> {
	pub fn new(config: CheckEvmTransactionConfig<'c>, transaction: CheckEvmTransactionInput, weight_limit: Option<Weight>, proof_size_base_cost: Option<u64>) -> Self { Self { config, transaction, weight_limit, proof_size_base_cost, _e: Default::default() } }
	pub fn validate_in_pool_for(&self, who: &Account) -> Result<&Self, E> { if self.transaction.nonce < who.nonce { Err(Bad::TxNonceTooLow.into()) } else { self.validate_common() } }
	pub fn validate_in_block_for(&self, who: &Account) -> Result<&Self, E> {
		if self.transaction.nonce > who.nonce { return Err(Bad::TxNonceTooHigh.into()) }
		if self.transaction.nonce < who.nonce { return Err(Bad::TxNonceTooLow.into()) }
		self.validate_common()
	}
	pub fn with_chain_id(&self) -> Result<&Self, E> { if self.transaction.chain_id.map_or(true, |c| c == self.config.chain_id) { Ok(self) } else { Err(Bad::InvalidChainId.into()) } }
	pub fn with_base_fee(&self) -> Result<&Self, E> {
		let (price, _) = self.fee_input()?;
		if (self.config.is_transactional || !price.is_zero()) && price < self.config.base_fee { return Err(Bad::GasPriceTooLow.into()) }
		Ok(self)
	}
	pub fn with_balance_for(&self, who: &Account) -> Result<&Self, E> {
		let t = &self.transaction;
		let max = match (t.gas_price, t.max_fee_per_gas) { (Some(p), None) => p, (None, Some(p)) => p, (None, None) => U256::zero(), _ => return Err(Bad::InvalidFeeInput.into()) };
		let fee = max.saturating_mul(t.gas_limit);
		if (self.config.is_transactional || !fee.is_zero()) && who.balance < t.value.saturating_add(fee) { return Err(Bad::BalanceTooLow.into()) }
		Ok(self)
	}
	/// gas price per unit and the tip
	fn fee_input(&self) -> Result<(U256, Option<U256>), E> {
		let t = &self.transaction;
		match (t.gas_price, t.max_fee_per_gas, t.max_priority_fee_per_gas) {
			(Some(p), None, None) => Ok((p, Some(p))),
			(None, Some(max), None) => Ok((max, None)),
			(None, Some(max), Some(tip)) => if tip > max { Err(Bad::PriorityFeeTooHigh.into()) } else { Ok((max.min(self.config.base_fee.saturating_add(tip)), Some(tip))) },
			_ if self.config.is_transactional => Err(Bad::InvalidFeeInput.into()),
			_ => Ok((U256::zero(), None)),
		}
	}
	fn validate_common(&self) -> Result<&Self, E> {
		let (t, g) = (&self.transaction, self.config.evm_config);
		if self.config.is_transactional {
			if t.gas_limit > self.config.block_gas_limit { return Err(Bad::GasLimitTooHigh.into()) }
			let zeros = t.input.iter().filter(|x| **x == 0).count() as u64;
			let need = if t.to.is_some() { g.gas_transaction_call } else { g.gas_transaction_create } + zeros * g.gas_transaction_zero_data + (t.input.len() as u64 - zeros) * g.gas_transaction_non_zero_data;
			if t.gas_limit < U256::from(need) { return Err(Bad::GasLimitTooLow.into()) }
		}
		Ok(self)
	}
}
