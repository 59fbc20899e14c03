//! Stand-in for `sp-io`: an in-memory, journalled key-value state with nested transactions.
use sp_core::offchain::{Extension, PoolState};
use sp_core::storage::Storage;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use parking_lot::RwLock;

#[derive(Default, Clone)]
struct Ext {
	state: BTreeMap<Vec<u8>, Vec<u8>>,
	/// (key, value before the write), newest last
	journal: Vec<(Vec<u8>, Option<Vec<u8>>)>,
	layers: Vec<usize>,
	pool: Option<Arc<RwLock<PoolState>>>,
	offchain_db: BTreeMap<Vec<u8>, Vec<u8>>,
	active: bool,
}
thread_local! { static EXT: RefCell<Ext> = RefCell::new(Ext::default()); }
fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R { EXT.with(|e| f(&mut e.borrow_mut())) }

pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> { with(|e| e.state.get(k).cloned()) }
	pub fn read(k: &[u8], out: &mut [u8], off: u32) -> Option<u32> { get(k).map(|v| { let d = &v[v.len().min(off as usize)..]; let n = d.len().min(out.len()); out[..n].copy_from_slice(&d[..n]); d.len() as u32 }) }
	pub fn exists(k: &[u8]) -> bool { with(|e| e.state.contains_key(k)) }
	pub fn set(k: &[u8], v: &[u8]) {
		with(|e| {
			let old = e.state.insert(k.to_vec(), v.to_vec());
			if !e.layers.is_empty() { e.journal.push((k.to_vec(), old)); }
		})
	}
	pub fn clear(k: &[u8]) {
		with(|e| {
			let old = e.state.remove(k);
			if !e.layers.is_empty() && old.is_some() { e.journal.push((k.to_vec(), old)); }
		})
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		use std::ops::Bound::*;
		with(|e| e.state.range::<[u8], _>((Excluded(k), Unbounded)).next().map(|x| x.0.clone()))
	}
	pub fn keys_with_prefix(p: &[u8]) -> Vec<Vec<u8>> {
		with(|e| e.state.range(p.to_vec()..).take_while(|x| x.0.starts_with(p)).map(|x| x.0.clone()).collect())
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> (u32, bool) {
		let ks = keys_with_prefix(p);
		let n = limit.map_or(ks.len(), |l| ks.len().min(l as usize));
		for k in &ks[..n] { clear(k); }
		(n as u32, n < ks.len())
	}
	pub fn start_transaction() { with(|e| { let n = e.journal.len(); e.layers.push(n) }) }
	pub fn commit_transaction() { with(|e| { e.layers.pop().expect("no transaction to commit"); if e.layers.is_empty() { e.journal.clear(); } }) }
	pub fn rollback_transaction() {
		with(|e| {
			let n = e.layers.pop().expect("no transaction to roll back");
			while e.journal.len() > n {
				let (k, v) = e.journal.pop().unwrap();
				match v { Some(v) => { e.state.insert(k, v); }, None => { e.state.remove(&k); } }
			}
		})
	}
	pub fn depth() -> usize { with(|e| e.layers.len()) }
	/// The whole state, for comparisons.
	pub fn snapshot() -> BTreeMap<Vec<u8>, Vec<u8>> { with(|e| e.state.clone()) }
	pub fn root(_: u8) -> Vec<u8> {
		with(|e| { let mut b = vec![]; for (k, v) in &e.state { b.extend((k.len() as u32).to_le_bytes()); b.extend(k); b.extend((v.len() as u32).to_le_bytes()); b.extend(v); } sp_core::hashing::blake2_256(&b).to_vec() })
	}
}
pub mod hashing { pub use sp_core::hashing::*; }
pub mod offchain {
	use super::*;
	pub fn submit_transaction(d: Vec<u8>) -> Result<(), ()> { with(|e| match &e.pool { Some(p) => { p.write().transactions.insert(0, d); Ok(()) }, None => Err(()) }) }
	thread_local! { static VALIDATOR: std::cell::Cell<bool> = const { std::cell::Cell::new(true) }; }
	pub fn is_validator() -> bool { VALIDATOR.with(|v| v.get()) }
	/// of the stand-in only: whether this node is a validator
	pub fn set_validator(on: bool) { VALIDATOR.with(|v| v.set(on)) }
	pub fn local_get(k: &[u8]) -> Option<Vec<u8>> { with(|e| e.offchain_db.get(k).cloned()) }
	pub fn local_set(k: &[u8], v: &[u8]) { with(|e| { e.offchain_db.insert(k.to_vec(), v.to_vec()); }) }
	pub fn local_clear(k: &[u8]) { with(|e| { e.offchain_db.remove(k); }) }
}
pub mod crypto;

#[derive(Default, Clone)]
pub struct TestExternalities { ext: Ext }
pub type BasicExternalities = TestExternalities;
struct Guard<'a>(&'a mut Ext, Option<Ext>);
impl Drop for Guard<'_> {
	fn drop(&mut self) {
		let outer = self.1.take().unwrap();
		let mut inner = EXT.with(|e| std::mem::replace(&mut *e.borrow_mut(), outer));
		// a panic may leave transactions open: undo them
		while let Some(n) = inner.layers.pop() {
			while inner.journal.len() > n {
				let (k, v) = inner.journal.pop().unwrap();
				match v { Some(v) => { inner.state.insert(k, v); }, None => { inner.state.remove(&k); } }
			}
		}
		*self.0 = inner;
	}
}
impl TestExternalities {
	pub fn new(s: Storage) -> Self { Self { ext: Ext { state: s.top, ..Default::default() } } }
	pub fn new_empty() -> Self { Self::default() }
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		let mine = Ext { active: true, ..std::mem::take(&mut self.ext) };
		let outer = EXT.with(|e| std::mem::replace(&mut *e.borrow_mut(), mine));
		let _g = Guard(&mut self.ext, Some(outer));
		f()
	}
	pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) { self.ext.state.insert(k, v); }
	pub fn commit_all(&mut self) -> Result<(), String> { Ok(()) }
	pub fn persist_offchain_overlay(&mut self) {}
	pub fn offchain_db(&self) {}
	pub fn register_extension(&mut self, e: Extension) { if let Extension::Pool(p) = e { self.ext.pool = Some(p) } }
	pub fn into_storage(self) -> Storage { Storage { top: self.ext.state, ..Default::default() } }
	pub fn state(&self) -> &BTreeMap<Vec<u8>, Vec<u8>> { &self.ext.state }
}
impl From<Storage> for TestExternalities { fn from(s: Storage) -> Self { Self::new(s) } }
/// Run `f` on the given storage (genesis building).
pub fn execute_with_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R {
	let mut t = TestExternalities::new(std::mem::take(s));
	let r = t.execute_with(f);
	*s = t.into_storage();
	r
}
