//! Stand-in for `evm` 0.41: the types precompiles exchange with the interpreter (no interpreter).
use primitive_types::{H160, H256, U256};
use std::borrow::Cow;
pub mod backend {
	use primitive_types::{H160, U256};
	#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Basic { pub balance: U256, pub nonce: U256 }
	pub use super::Log;
	#[allow(unused)] fn _k(_: H160) {}
}
#[derive(Clone, Copy, Debug, Eq, PartialEq)] pub struct Opcode(pub u8);
#[derive(Clone, Debug, Eq, PartialEq)] pub enum ExitReason { Succeed(ExitSucceed), Error(ExitError), Revert(ExitRevert), Fatal(ExitFatal) }
impl ExitReason {
	pub fn is_succeed(&self) -> bool { matches!(self, Self::Succeed(_)) }
	pub fn is_error(&self) -> bool { matches!(self, Self::Error(_)) }
	pub fn is_revert(&self) -> bool { matches!(self, Self::Revert(_)) }
	pub fn is_fatal(&self) -> bool { matches!(self, Self::Fatal(_)) }
}
#[derive(Clone, Copy, Debug, Eq, PartialEq)] pub enum ExitSucceed { Stopped, Returned, Suicided }
#[derive(Clone, Copy, Debug, Eq, PartialEq)] pub enum ExitRevert { Reverted }
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum ExitError { StackUnderflow, StackOverflow, InvalidJump, InvalidRange, DesignatedInvalid, CallTooDeep, CreateCollision, CreateContractLimit, OutOfOffset, OutOfGas, OutOfFund, PCUnderflow, CreateEmpty, Other(Cow<'static, str>), MaxNonce, InvalidCode(Opcode) }
#[derive(Clone, Debug, Eq, PartialEq)] pub enum ExitFatal { NotSupported, UnhandledInterrupt, CallErrorAsFatal(ExitError), Other(Cow<'static, str>) }
impl From<ExitSucceed> for ExitReason { fn from(e: ExitSucceed) -> Self { Self::Succeed(e) } }
impl From<ExitError> for ExitReason { fn from(e: ExitError) -> Self { Self::Error(e) } }
impl From<ExitRevert> for ExitReason { fn from(e: ExitRevert) -> Self { Self::Revert(e) } }
impl From<ExitFatal> for ExitReason { fn from(e: ExitFatal) -> Self { Self::Fatal(e) } }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Context { pub address: H160, pub caller: H160, pub apparent_value: U256 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Transfer { pub source: H160, pub target: H160, pub value: U256 }
#[derive(Clone, Debug, Default, PartialEq, Eq)] pub struct Log { pub address: H160, pub topics: Vec<H256>, pub data: Vec<u8> }
/// the gas constants that are read outside the interpreter
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Config { pub gas_call: u64, pub gas_account_access_cold: u64, pub gas_storage_read_warm: u64, pub increase_state_access_gas: bool, pub empty_considered_exists: bool, pub gas_transaction_call: u64, pub gas_transaction_create: u64, pub gas_transaction_zero_data: u64, pub gas_transaction_non_zero_data: u64 }
impl Config {
	pub const fn frontier() -> Config { Config { gas_call: 40, gas_account_access_cold: 0, gas_storage_read_warm: 0, increase_state_access_gas: false, empty_considered_exists: true, gas_transaction_call: 21000, gas_transaction_create: 21000, gas_transaction_zero_data: 4, gas_transaction_non_zero_data: 68 } }
	pub const fn istanbul() -> Config { Config { gas_call: 700, gas_account_access_cold: 0, gas_storage_read_warm: 0, increase_state_access_gas: false, empty_considered_exists: false, gas_transaction_call: 21000, gas_transaction_create: 53000, gas_transaction_zero_data: 4, gas_transaction_non_zero_data: 16 } }
	pub const fn shanghai() -> Config { Config { gas_call: 0, gas_account_access_cold: 2600, gas_storage_read_warm: 100, increase_state_access_gas: true, empty_considered_exists: false, gas_transaction_call: 21000, gas_transaction_create: 53000, gas_transaction_zero_data: 4, gas_transaction_non_zero_data: 16 } }
}
