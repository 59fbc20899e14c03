pub use sp_core::offchain::{Duration, Timestamp};
pub mod storage {
	use codec::{Decode, Encode};
	pub struct StorageValueRef<'a> { key: std::borrow::Cow<'a, [u8]> }
	#[derive(Debug)]
	pub struct StorageRetrievalError;
	#[derive(Debug)]
	pub enum MutateStorageError<T, E> { ConcurrentModification(T), ValueFunctionFailed(E) }
	impl<'a> StorageValueRef<'a> {
		pub fn persistent(k: &'a [u8]) -> Self { Self { key: k.into() } }
		pub fn local(k: &'a [u8]) -> Self { Self { key: k.into() } }
		pub fn set(&self, v: &impl Encode) { sp_io::offchain::local_set(&self.key, &v.encode()) }
		pub fn clear(&mut self) { sp_io::offchain::local_clear(&self.key) }
		pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> { match sp_io::offchain::local_get(&self.key) { None => Ok(None), Some(v) => T::decode(&mut &v[..]).map(Some).map_err(|_| StorageRetrievalError) } }
		pub fn mutate<T: codec::Codec, E, F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>>(&self, f: F) -> Result<T, MutateStorageError<T, E>> {
			let v = f(self.get()).map_err(MutateStorageError::ValueFunctionFailed)?;
			self.set(&v);
			Ok(v)
		}
	}
}
pub mod storage_lock {
	pub use super::Duration;
	pub struct Time;
	pub struct StorageLock<'a, L> { _k: &'a [u8], _p: std::marker::PhantomData<L> }
	pub struct StorageLockGuard<'a>(std::marker::PhantomData<&'a ()>);
	impl<'a> StorageLockGuard<'a> { pub fn forget(self) {} }
	impl<'a> StorageLock<'a, Time> {
		pub fn with_deadline(k: &'a [u8], _: Duration) -> Self { Self { _k: k, _p: std::marker::PhantomData } }
		pub fn new(k: &'a [u8]) -> Self { Self { _k: k, _p: std::marker::PhantomData } }
		pub fn try_lock(&mut self) -> Result<StorageLockGuard<'_>, ()> { Ok(StorageLockGuard(std::marker::PhantomData)) }
		pub fn lock(&mut self) -> StorageLockGuard<'_> { StorageLockGuard(std::marker::PhantomData) }
	}
}
