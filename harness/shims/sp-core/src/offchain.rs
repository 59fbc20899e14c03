//! Just enough for the off-chain workers the mocks register.
use std::sync::Arc;
use parking_lot::RwLock;
pub mod testing {
	pub use super::{PoolState, TestOffchainExt, TestTransactionPoolExt};
}
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Timestamp(u64);
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Duration(u64);
impl Duration { pub const fn from_millis(m: u64) -> Self { Self(m) } pub fn millis(&self) -> u64 { self.0 } }
#[derive(Default, Debug)]
pub struct PoolState { pub transactions: Vec<Vec<u8>> }
#[derive(Clone, Default)]
pub struct TestOffchainExt;
impl TestOffchainExt { pub fn with_offchain_db<D>(_: D) -> (Self, Arc<RwLock<()>>) { Self::new() } pub fn new() -> (Self, Arc<RwLock<()>>) { (Self, Default::default()) } }
#[derive(Clone, Default)]
pub struct TestTransactionPoolExt(pub Arc<RwLock<PoolState>>);
impl TestTransactionPoolExt { pub fn new() -> (Self, Arc<RwLock<PoolState>>) { let s = Self::default(); (s.clone(), s.0) } }
/// What can be registered with the externalities.
#[derive(Clone)]
pub enum Extension { Db, Worker, Pool(Arc<RwLock<PoolState>>) }
pub struct OffchainDbExt;
impl OffchainDbExt { pub fn new(_: TestOffchainExt) -> Extension { Extension::Db } }
pub struct OffchainWorkerExt;
impl OffchainWorkerExt { pub fn new(_: TestOffchainExt) -> Extension { Extension::Worker } }
pub struct TransactionPoolExt;
impl TransactionPoolExt { pub fn new(p: TestTransactionPoolExt) -> Extension { Extension::Pool(p.0) } }
