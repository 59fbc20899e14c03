//! Storage items over the in-memory state of the `sp-io` stand-in, with the key layout of the real thing.
use crate::hash::*;
use crate::traits::{Get, GetDefault, StorageInstance};
use codec::{Decode, Encode, EncodeLike, FullCodec};
use sp_core::hashing::twox_128;
use sp_runtime::{DispatchError, TransactionalError};
pub use sp_runtime::TransactionOutcome;
use std::marker::PhantomData;

pub const TRANSACTIONAL_LIMIT: usize = 255;
struct Undo(bool);
impl Drop for Undo { fn drop(&mut self) { if self.0 { sp_io::storage::rollback_transaction() } } }
pub fn with_transaction<T, E: From<DispatchError>, F: FnOnce() -> TransactionOutcome<Result<T, E>>>(f: F) -> Result<T, E> {
	if sp_io::storage::depth() >= TRANSACTIONAL_LIMIT { return Err(DispatchError::from(TransactionalError::LimitReached).into()); }
	sp_io::storage::start_transaction();
	let mut u = Undo(true);
	let r = f();
	u.0 = false;
	match r {
		TransactionOutcome::Commit(r) => { sp_io::storage::commit_transaction(); r },
		TransactionOutcome::Rollback(r) => { sp_io::storage::rollback_transaction(); r },
	}
}
pub fn with_transaction_unchecked<R, F: FnOnce() -> TransactionOutcome<R>>(f: F) -> R {
	sp_io::storage::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => { sp_io::storage::commit_transaction(); r },
		TransactionOutcome::Rollback(r) => { sp_io::storage::rollback_transaction(); r },
	}
}
pub fn with_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> {
	with_transaction(|| { let r = f(); if r.is_ok() { TransactionOutcome::Commit(r) } else { TransactionOutcome::Rollback(r) } })
}
pub fn in_storage_layer<T, E: From<DispatchError>, F: FnOnce() -> Result<T, E>>(f: F) -> Result<T, E> { if transactional::is_transactional() { f() } else { with_storage_layer(f) } }
pub mod transactional {
	pub use super::{with_transaction, with_storage_layer, in_storage_layer};
	pub fn is_transactional() -> bool { sp_io::storage::depth() > 0 }
	pub fn not_transactional() -> sp_runtime::DispatchError { sp_runtime::TransactionalError::NoLayer.into() }
}
pub mod unhashed {
	use codec::{Decode, Encode};
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> { sp_io::storage::get(k).and_then(|v| Decode::decode(&mut &v[..]).map(|v| Some(v)).unwrap_or_else(|e| { crate::note_corrupt(k, &e); None })) }
	pub fn get_or_default<T: Decode + Default>(k: &[u8]) -> T { get(k).unwrap_or_default() }
	pub fn get_or<T: Decode>(k: &[u8], d: T) -> T { get(k).unwrap_or(d) }
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) { v.using_encoded(|s| sp_io::storage::set(k, s)) }
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> { let v = get(k); if v.is_some() { kill(k) } v }
	pub fn exists(k: &[u8]) -> bool { sp_io::storage::exists(k) }
	pub fn kill(k: &[u8]) { sp_io::storage::clear(k) }
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> { sp_io::storage::get(k) }
	pub fn put_raw(k: &[u8], v: &[u8]) { sp_io::storage::set(k, v) }
	pub fn contains_prefixed_key(p: &[u8]) -> bool { match sp_io::storage::next_key(p) { Some(k) => k.starts_with(p), None => false } }
	pub fn clear_prefix(p: &[u8], limit: Option<u32>, _c: Option<&[u8]>) -> super::MultiRemovalResults { let (n, more) = sp_io::storage::clear_prefix(p, limit); super::MultiRemovalResults { maybe_cursor: more.then(|| p.to_vec()), backend: n, unique: n, loops: n } }
	pub fn kill_prefix(p: &[u8], limit: Option<u32>) { sp_io::storage::clear_prefix(p, limit); }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MultiRemovalResults { pub maybe_cursor: Option<Vec<u8>>, pub backend: u32, pub unique: u32, pub loops: u32 }
pub fn storage_prefix(p: &[u8], s: &[u8]) -> [u8; 32] { let mut o = [0; 32]; o[..16].copy_from_slice(&twox_128(p)); o[16..].copy_from_slice(&twox_128(s)); o }
std::thread_local! { static PFX: std::cell::RefCell<std::collections::HashMap<(usize, usize), [u8; 32]>> = Default::default(); }
fn cached_prefix(p: &'static str, s: &'static str) -> [u8; 32] {
	PFX.with(|m| *m.borrow_mut().entry((p.as_ptr() as usize ^ (p.len() << 48), s.as_ptr() as usize ^ (s.len() << 48))).or_insert_with(|| storage_prefix(p.as_bytes(), s.as_bytes())))
}
pub trait StoragePrefixedMap<V> {
	fn module_prefix() -> &'static [u8] where Self: Sized;
	fn storage_prefix() -> &'static [u8] where Self: Sized;
	fn final_prefix() -> [u8; 32] where Self: Sized;
}
pub mod migration {
	pub fn move_prefix(from: &[u8], to: &[u8]) {
		if from == to { return; }
		for k in sp_io::storage::keys_with_prefix(from) {
			if let Some(v) = sp_io::storage::get(&k) {
				let mut n = to.to_vec();
				n.extend_from_slice(&k[from.len()..]);
				sp_io::storage::set(&n, &v);
				sp_io::storage::clear(&k);
			}
		}
	}
	pub fn move_storage_from_pallet(s: &[u8], old: &[u8], new: &[u8]) { let (a, b) = (super::storage_prefix(old, s), super::storage_prefix(new, s)); move_prefix(&a, &b); if let Some(v) = sp_io::storage::get(&a) { sp_io::storage::set(&b, &v); sp_io::storage::clear(&a); } }
	pub fn move_pallet(old: &[u8], new: &[u8]) { move_prefix(&sp_core::hashing::twox_128(old), &sp_core::hashing::twox_128(new)) }
	pub fn put_storage_value<T: codec::Encode>(m: &[u8], i: &[u8], h: &[u8], v: T) { let mut k = super::storage_prefix(m, i).to_vec(); k.extend_from_slice(h); super::unhashed::put(&k, &v) }
	pub fn get_storage_value<T: codec::Decode>(m: &[u8], i: &[u8], h: &[u8]) -> Option<T> { let mut k = super::storage_prefix(m, i).to_vec(); k.extend_from_slice(h); super::unhashed::get(&k) }
}

/// Keys below a prefix, lazily, seeing changes made while iterating; can drain.
pub struct PrefixIterator<T> { prefix: Vec<u8>, prev: Vec<u8>, drain: bool, f: Box<dyn Fn(&[u8], &[u8]) -> Result<T, codec::Error>> }
impl<T> PrefixIterator<T> {
	pub fn raw(prefix: Vec<u8>, prev: Vec<u8>, f: impl Fn(&[u8], &[u8]) -> Result<T, codec::Error> + 'static) -> Self { Self { prefix, prev, drain: false, f: Box::new(f) } }
	pub fn drain(mut self) -> Self { self.drain = true; self }
	pub fn last_raw_key(&self) -> &[u8] { &self.prev }
	pub fn prefix(&self) -> &[u8] { &self.prefix }
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = sp_io::storage::next_key(&self.prev).filter(|n| n.starts_with(&self.prefix))?;
			self.prev = k;
			let Some(raw) = sp_io::storage::get(&self.prev) else { continue };
			if self.drain { sp_io::storage::clear(&self.prev) }
			match (self.f)(&self.prev[self.prefix.len()..], &raw) { Ok(t) => return Some(t), Err(_) => continue }
		}
	}
}
pub struct KeyPrefixIterator<T> { prefix: Vec<u8>, prev: Vec<u8>, f: fn(&[u8]) -> Result<T, codec::Error> }
impl<T> KeyPrefixIterator<T> {
	pub fn new(prefix: Vec<u8>, prev: Vec<u8>, f: fn(&[u8]) -> Result<T, codec::Error>) -> Self { Self { prefix, prev, f } }
	pub fn last_raw_key(&self) -> &[u8] { &self.prev }
	pub fn prefix(&self) -> &[u8] { &self.prefix }
}
impl<T> Iterator for KeyPrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			self.prev = sp_io::storage::next_key(&self.prev).filter(|n| n.starts_with(&self.prefix))?;
			if let Ok(t) = (self.f)(&self.prev[self.prefix.len()..]) { return Some(t) }
		}
	}
}
pub trait QueryKindTrait<Value, OnEmpty>: 'static {
	type Query: 'static;
	fn from_opt(v: Option<Value>) -> Self::Query;
	fn to_opt(q: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
impl<V: 'static, E> QueryKindTrait<V, E> for OptionQuery { type Query = Option<V>; fn from_opt(v: Option<V>) -> Option<V> { v } fn to_opt(q: Option<V>) -> Option<V> { q } }
pub struct ValueQuery;
impl<V: 'static, E: Get<V>> QueryKindTrait<V, E> for ValueQuery { type Query = V; fn from_opt(v: Option<V>) -> V { v.unwrap_or_else(E::get) } fn to_opt(q: V) -> Option<V> { Some(q) } }
pub trait StorageQuery { type Query; }
pub trait StorageAppend<Item: Encode> {}
impl<T: Encode> StorageAppend<T> for Vec<T> {}
impl<T: Encode, S> StorageAppend<T> for sp_runtime::BoundedVec<T, S> {}
impl<T: Encode> StorageAppend<T> for std::collections::BTreeSet<T> {}
/// Bounded containers a value can be pushed to.
pub trait TryAppendValue<Item> { fn bound() -> usize; }
impl<T, S: Get<u32>> TryAppendValue<T> for sp_runtime::BoundedVec<T, S> { fn bound() -> usize { S::get() as usize } }
fn append_raw<I: Encode>(k: &[u8], item: I) {
	let old = sp_io::storage::get(k).unwrap_or_default();
	let mut inp = &old[..];
	let (n, rest) = match codec::Compact::<u32>::decode(&mut inp) { Ok(n) => (n.0, inp.to_vec()), Err(_) => (0, vec![]) };
	let mut o = codec::Compact(n + 1).encode();
	o.extend(rest);
	item.encode_to(&mut o);
	sp_io::storage::set(k, &o);
}

// ------------------------------------------------------------------ value
pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
impl<P, V, Q: QueryKindTrait<V, E>, E> StorageQuery for StorageValue<P, V, Q, E> { type Query = Q::Query; }
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
	pub fn hashed_key() -> [u8; 32] { cached_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
	pub fn exists() -> bool { unhashed::exists(&Self::hashed_key()) }
	pub fn get() -> Q::Query { Q::from_opt(unhashed::get(&Self::hashed_key())) }
	pub fn try_get() -> Result<V, ()> { unhashed::get(&Self::hashed_key()).ok_or(()) }
	pub fn put<A: EncodeLike<V>>(v: A) { unhashed::put(&Self::hashed_key(), &v) }
	pub fn set(q: Q::Query) { match Q::to_opt(q) { Some(v) => Self::put(v), None => Self::kill() } }
	pub fn kill() { unhashed::kill(&Self::hashed_key()) }
	pub fn take() -> Q::Query { let k = Self::hashed_key(); let v = unhashed::get(&k); if v.is_some() { unhashed::kill(&k) } Q::from_opt(v) }
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R { Self::try_mutate(|v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate<R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(f: F) -> Result<R, Er> { let mut v = Self::get(); let r = f(&mut v); if r.is_ok() { Self::set(v) } r }
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R { Self::try_mutate_exists(|v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate_exists<R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(f: F) -> Result<R, Er> {
		let mut v: Option<V> = unhashed::get(&Self::hashed_key());
		let r = f(&mut v);
		if r.is_ok() { match v { Some(v) => Self::put(v), None => Self::kill() } }
		r
	}
	pub fn append<I: Encode, L: EncodeLike<I>>(item: L) where V: StorageAppend<I> { append_raw(&Self::hashed_key(), item) }
	pub fn try_append<I: Encode, L: EncodeLike<I>>(item: L) -> Result<(), ()> where V: TryAppendValue<I> + codec::DecodeLength { if Self::decode_len().unwrap_or(0) < V::bound() { append_raw(&Self::hashed_key(), item); Ok(()) } else { Err(()) } }
	pub fn decode_len() -> Option<usize> where V: codec::DecodeLength { sp_io::storage::get(&Self::hashed_key()).and_then(|v| <V as codec::DecodeLength>::len(&v).ok()) }
	pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
		let k = Self::hashed_key();
		let old = match unhashed::get_raw(&k) { Some(r) => Some(O::decode(&mut &r[..]).map_err(|_| ())?), None => None };
		let new = f(old);
		match new { Some(ref v) => unhashed::put(&k, v), None => unhashed::kill(&k) }
		Ok(new)
	}
}

// ------------------------------------------------------------------ map core
fn get_k<V: Decode>(k: &[u8]) -> Option<V> { unhashed::get(k) }
fn try_mutate_k<V: FullCodec, Q: QueryKindTrait<V, E>, E, R, Er>(k: &[u8], f: impl FnOnce(&mut Q::Query) -> Result<R, Er>) -> Result<R, Er> {
	let mut v = Q::from_opt(get_k(k));
	let r = f(&mut v);
	if r.is_ok() { match Q::to_opt(v) { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
	r
}
fn try_mutate_exists_k<V: FullCodec, R, Er>(k: &[u8], f: impl FnOnce(&mut Option<V>) -> Result<R, Er>) -> Result<R, Er> {
	let mut v: Option<V> = get_k(k);
	let r = f(&mut v);
	if r.is_ok() { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
	r
}
fn kh<K: FullCodec, H: StorageHasher, A: EncodeLike<K>>(a: A) -> Vec<u8> { a.using_encoded(|b| H::hash(b).as_ref().to_vec()) }
fn dec_key<K: Decode, H: ReversibleStorageHasher>(rest: &[u8]) -> Result<(K, &[u8]), codec::Error> { let mut m = H::reverse(rest); let k = K::decode(&mut m)?; Ok((k, m)) }

pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P, H, K, V, Q: QueryKindTrait<V, E>, E, M> StorageQuery for StorageMap<P, H, K, V, Q, E, M> { type Query = Q::Query; }
macro_rules! map_core { () => {
	pub fn final_prefix() -> [u8; 32] { cached_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
	pub fn prefix_hash() -> [u8; 32] { Self::final_prefix() }
	pub fn iter_values() -> PrefixIterator<V> where V: 'static { let p = Self::final_prefix().to_vec(); PrefixIterator::raw(p.clone(), p, |_, mut v| V::decode(&mut v)) }
	pub fn clear(limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { unhashed::clear_prefix(&Self::final_prefix(), Some(limit), None) }
	pub fn remove_all(limit: Option<u32>) -> MultiRemovalResults { unhashed::clear_prefix(&Self::final_prefix(), limit, None) }
	pub fn translate_values<O: Decode, F: FnMut(O) -> Option<V>>(mut f: F) {
		for k in sp_io::storage::keys_with_prefix(&Self::final_prefix()) {
			let Some(o) = unhashed::get::<O>(&k) else { continue };
			match f(o) { Some(n) => unhashed::put(&k, &n), None => unhashed::kill(&k) }
		}
	}
} }
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StoragePrefixedMap<V> for StorageMap<P, H, K, V, Q, E, M> {
	fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
	fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
	fn final_prefix() -> [u8; 32] { cached_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
}
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	map_core!();
	pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { let mut o = Self::final_prefix().to_vec(); o.extend(kh::<K, H, A>(k)); o }
	pub fn migrate_key<OldHasher: StorageHasher, A: EncodeLike<K>>(k: A) -> Option<V> { let mut o = Self::final_prefix().to_vec(); let enc = k.encode(); o.extend(OldHasher::hash(&enc).as_ref()); let v = unhashed::take::<V>(&o)?; let mut n = Self::final_prefix().to_vec(); n.extend(H::hash(&enc).as_ref()); unhashed::put(&n, &v); Some(v) }
	pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
	pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_opt(get_k(&Self::hashed_key_for(k))) }
	pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { get_k(&Self::hashed_key_for(k)).ok_or(()) }
	pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) { let k = Self::hashed_key_for(k); match Q::to_opt(q) { Some(v) => unhashed::put(&k, &v), None => unhashed::kill(&k) } }
	pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
	pub fn remove<A: EncodeLike<K>>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
	pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(k))) }
	pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) { let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b)); let (x, y): (Option<V>, Option<V>) = (get_k(&a), get_k(&b)); match x { Some(x) => unhashed::put(&b, &x), None => unhashed::kill(&b) } match y { Some(y) => unhashed::put(&a, &y), None => unhashed::kill(&a) } }
	pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { Self::try_mutate(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { try_mutate_k::<V, Q, E, R, Er>(&Self::hashed_key_for(k), f) }
	pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::try_mutate_exists(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate_exists<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { try_mutate_exists_k(&Self::hashed_key_for(k), f) }
	pub fn append<I: Encode, L: EncodeLike<I>, A: EncodeLike<K>>(k: A, i: L) where V: StorageAppend<I> { append_raw(&Self::hashed_key_for(k), i) }
	pub fn try_append<A: EncodeLike<K> + Clone, I: Encode, L: EncodeLike<I>>(k: A, i: L) -> Result<(), ()> where V: TryAppendValue<I> + codec::DecodeLength { if Self::decode_len(k.clone()).unwrap_or(0) < V::bound() { append_raw(&Self::hashed_key_for(k), i); Ok(()) } else { Err(()) } }
	pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> where V: codec::DecodeLength { sp_io::storage::get(&Self::hashed_key_for(k)).and_then(|v| <V as codec::DecodeLength>::len(&v).ok()) }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	pub fn iter() -> PrefixIterator<(K, V)> { let p = Self::final_prefix().to_vec(); Self::iter_from(p) }
	pub fn iter_from(prev: Vec<u8>) -> PrefixIterator<(K, V)> { PrefixIterator::raw(Self::final_prefix().to_vec(), prev, |k, mut v| Ok((dec_key::<K, H>(k)?.0, V::decode(&mut v)?))) }
	pub fn iter_keys() -> KeyPrefixIterator<K> { let p = Self::final_prefix().to_vec(); Self::iter_keys_from(p) }
	pub fn iter_keys_from(prev: Vec<u8>) -> KeyPrefixIterator<K> { KeyPrefixIterator::new(Self::final_prefix().to_vec(), prev, |k| Ok(dec_key::<K, H>(k)?.0)) }
	pub fn drain() -> PrefixIterator<(K, V)> { Self::iter().drain() }
	pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) {
		for k in sp_io::storage::keys_with_prefix(&Self::final_prefix()) {
			let Ok((key, _)) = dec_key::<K, H>(&k[32..]) else { continue };
			let Some(o) = unhashed::get::<O>(&k) else { continue };
			match f(key, o) { Some(n) => unhashed::put(&k, &n), None => unhashed::kill(&k) }
		}
	}
}

pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P, H, K, V, Q: QueryKindTrait<V, E>, E, M> StorageQuery for CountedStorageMap<P, H, K, V, Q, E, M> { type Query = Q::Query; }
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	fn ck() -> Vec<u8> { storage_prefix(P::pallet_prefix().as_bytes(), format!("CounterFor{}", P::STORAGE_PREFIX).as_bytes()).to_vec() }
	fn adj<R>(k: &[u8], f: impl FnOnce() -> R) -> R {
		let a = unhashed::exists(k);
		let r = f();
		let b = unhashed::exists(k);
		if a != b { let c = Self::count(); unhashed::put(&Self::ck(), &(if b { c.saturating_add(1) } else { c.saturating_sub(1) })) }
		r
	}
	pub fn count() -> u32 { unhashed::get(&Self::ck()).unwrap_or(0) }
	pub fn final_prefix() -> [u8; 32] { cached_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
	pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { StorageMap::<P, H, K, V, Q, E, M>::hashed_key_for(k) }
	pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { StorageMap::<P, H, K, V, Q, E, M>::contains_key(k) }
	pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { StorageMap::<P, H, K, V, Q, E, M>::get(k) }
	pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { StorageMap::<P, H, K, V, Q, E, M>::try_get(k) }
	pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { let k = Self::hashed_key_for(k); Self::adj(&k, || unhashed::put(&k, &v)) }
	pub fn remove<A: EncodeLike<K>>(k: A) { let k = Self::hashed_key_for(k); Self::adj(&k, || unhashed::kill(&k)) }
	pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query { let k = Self::hashed_key_for(k); Self::adj(&k, || Q::from_opt(unhashed::take(&k))) }
	pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { Self::try_mutate(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(k); Self::adj(&k, || try_mutate_k::<V, Q, E, R, Er>(&k, f)) }
	pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::try_mutate_exists(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate_exists<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(k); Self::adj(&k, || try_mutate_exists_k(&k, f)) }
	pub fn iter_values() -> PrefixIterator<V> where V: 'static { StorageMap::<P, H, K, V, Q, E, M>::iter_values() }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	pub fn iter() -> PrefixIterator<(K, V)> { StorageMap::<P, H, K, V, Q, E, M>::iter() }
	pub fn iter_keys() -> KeyPrefixIterator<K> { StorageMap::<P, H, K, V, Q, E, M>::iter_keys() }
}

pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P, H1, K1, H2, K2, V, Q: QueryKindTrait<V, E>, E, M> StorageQuery for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> { type Query = Q::Query; }
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StoragePrefixedMap<V> for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	fn module_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
	fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
	fn final_prefix() -> [u8; 32] { cached_prefix(P::pallet_prefix(), P::STORAGE_PREFIX) }
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	map_core!();
	pub fn storage_double_map_final_key1<A: EncodeLike<K1>>(k: A) -> Vec<u8> { Self::p1(k) }
	fn p1<A: EncodeLike<K1>>(k: A) -> Vec<u8> { let mut o = Self::final_prefix().to_vec(); o.extend(kh::<K1, H1, A>(k)); o }
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) -> Vec<u8> { let mut o = Self::p1(k); o.extend(kh::<K2, H2, B>(l)); o }
	pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) -> bool { unhashed::exists(&Self::hashed_key_for(k, l)) }
	pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) -> Q::Query { Q::from_opt(get_k(&Self::hashed_key_for(k, l))) }
	pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) -> Result<V, ()> { get_k(&Self::hashed_key_for(k, l)).ok_or(()) }
	pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B, q: Q::Query) { let k = Self::hashed_key_for(k, l); match Q::to_opt(q) { Some(v) => unhashed::put(&k, &v), None => unhashed::kill(&k) } }
	pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(k: A, l: B, v: C) { unhashed::put(&Self::hashed_key_for(k, l), &v) }
	pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) { unhashed::kill(&Self::hashed_key_for(k, l)) }
	pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(k, l))) }
	pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, l: B, f: F) -> R { Self::try_mutate(k, l, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, l: B, f: F) -> Result<R, Er> { try_mutate_k::<V, Q, E, R, Er>(&Self::hashed_key_for(k, l), f) }
	pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, l: B, f: F) -> R { Self::try_mutate_exists(k, l, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, l: B, f: F) -> Result<R, Er> { try_mutate_exists_k(&Self::hashed_key_for(k, l), f) }
	pub fn append<I: Encode, L: EncodeLike<I>, A: EncodeLike<K1>, B: EncodeLike<K2>>(k: A, l: B, i: L) where V: StorageAppend<I> { append_raw(&Self::hashed_key_for(k, l), i) }
	pub fn clear_prefix<A: EncodeLike<K1>>(k: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults { unhashed::clear_prefix(&Self::p1(k), Some(limit), None) }
	pub fn remove_prefix<A: EncodeLike<K1>>(k: A, limit: Option<u32>) -> MultiRemovalResults { unhashed::clear_prefix(&Self::p1(k), limit, None) }
	pub fn contains_prefix<A: EncodeLike<K1>>(k: A) -> bool { unhashed::contains_prefixed_key(&Self::p1(k)) }
	pub fn iter_prefix_values<A: EncodeLike<K1>>(k: A) -> PrefixIterator<V> where V: 'static { let p = Self::p1(k); PrefixIterator::raw(p.clone(), p, |_, mut v| V::decode(&mut v)) }
}
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	pub fn iter_prefix<A: EncodeLike<K1>>(k: A) -> PrefixIterator<(K2, V)> { let p = Self::p1(k); PrefixIterator::raw(p.clone(), p, |k, mut v| Ok((dec_key::<K2, H2>(k)?.0, V::decode(&mut v)?))) }
	pub fn iter_key_prefix<A: EncodeLike<K1>>(k: A) -> KeyPrefixIterator<K2> { let p = Self::p1(k); KeyPrefixIterator::new(p.clone(), p, |k| Ok(dec_key::<K2, H2>(k)?.0)) }
	pub fn drain_prefix<A: EncodeLike<K1>>(k: A) -> PrefixIterator<(K2, V)> { Self::iter_prefix(k).drain() }
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec + 'static, H2: ReversibleStorageHasher, K2: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	pub fn iter() -> PrefixIterator<(K1, K2, V)> { Self::iter_from(Self::final_prefix().to_vec()) }
	pub fn iter_from(prev: Vec<u8>) -> PrefixIterator<(K1, K2, V)> { PrefixIterator::raw(Self::final_prefix().to_vec(), prev, |k, mut v| { let (a, r) = dec_key::<K1, H1>(k)?; Ok((a, dec_key::<K2, H2>(r)?.0, V::decode(&mut v)?)) }) }
	pub fn iter_keys() -> KeyPrefixIterator<(K1, K2)> { let p = Self::final_prefix().to_vec(); KeyPrefixIterator::new(p.clone(), p, |k| { let (a, r) = dec_key::<K1, H1>(k)?; Ok((a, dec_key::<K2, H2>(r)?.0)) }) }
	pub fn drain() -> PrefixIterator<(K1, K2, V)> { Self::iter().drain() }
	pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) {
		for k in sp_io::storage::keys_with_prefix(&Self::final_prefix()) {
			let Ok((a, r)) = dec_key::<K1, H1>(&k[32..]) else { continue };
			let Ok((b, _)) = dec_key::<K2, H2>(r) else { continue };
			let Some(o) = unhashed::get::<O>(&k) else { continue };
			match f(a, b, o) { Some(n) => unhashed::put(&k, &n), None => unhashed::kill(&k) }
		}
	}
}

// ------------------------------------------------------------------ n-map
pub struct Key<H, K>(PhantomData<(H, K)>);
pub type NMapKey<H, K> = Key<H, K>;
pub trait EncodeLikeTuple<T> { fn parts(self) -> Vec<Vec<u8>>; }
pub trait KeyGenerator: 'static { type Key: 'static; type KArg; fn hash_parts(p: &[Vec<u8>]) -> Vec<u8>; }
pub trait ReversibleKeyGenerator: KeyGenerator { fn decode_final(rest: &[u8]) -> Result<(Self::Key, &[u8]), codec::Error>; }
/// `P` is a leading part of the key; what follows it has its own generator.
pub trait HasKeyPrefix<P>: KeyGenerator { type Suffix; fn partial(p: P) -> Vec<u8>; }
pub trait HasReversibleKeyPrefix<P>: HasKeyPrefix<P> { fn decode_partial(rest: &[u8]) -> Result<Self::Suffix, codec::Error>; }
impl<H: StorageHasher, K: FullCodec + 'static> KeyGenerator for Key<H, K> { type Key = K; type KArg = (K,); fn hash_parts(p: &[Vec<u8>]) -> Vec<u8> { p.iter().flat_map(|x| H::hash(x).as_ref().to_vec()).collect() } }
impl<H: ReversibleStorageHasher, K: FullCodec + 'static> ReversibleKeyGenerator for Key<H, K> { fn decode_final(r: &[u8]) -> Result<(K, &[u8]), codec::Error> { dec_key::<K, H>(r) } }
macro_rules! nmap { ($( ($($A:ident $H:ident $K:ident $i:tt),+) )*) => {$(
	impl<$($A: EncodeLike<$K>, $K: Encode),+> EncodeLikeTuple<($($K,)+)> for ($($A,)+) { #[allow(non_snake_case)] fn parts(self) -> Vec<Vec<u8>> { let ($($A,)+) = self; vec![$($A.encode()),+] } }
)*} }
nmap!((A HA KA 0) (A HA KA 0, B HB KB 1) (A HA KA 0, B HB KB 1, C HC KC 2) (A HA KA 0, B HB KB 1, C HC KC 2, D HD KD 3) (A HA KA 0, B HB KB 1, C HC KC 2, D HD KD 3, E HE KE 4));
macro_rules! nmapk { ($( ($($H:ident $K:ident $i:tt),+) )*) => {$(
	impl<$($H: StorageHasher, $K: FullCodec + 'static),+> KeyGenerator for ($(Key<$H, $K>,)+) { type Key = ($($K,)+); type KArg = ($($K,)+); fn hash_parts(p: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; $( if let Some(x) = p.get($i) { o.extend_from_slice($H::hash(x).as_ref()); } )+ o } }
	impl<$($H: ReversibleStorageHasher, $K: FullCodec + 'static),+> ReversibleKeyGenerator for ($(Key<$H, $K>,)+) { #[allow(non_snake_case)] fn decode_final(r: &[u8]) -> Result<(Self::Key, &[u8]), codec::Error> { $( let ($K, r) = dec_key::<$K, $H>(r)?; )+ Ok((($($K,)+), r)) } }
)*} }
nmapk!((HA KA 0, HB KB 1) (HA KA 0, HB KB 1, HC KC 2) (HA KA 0, HB KB 1, HC KC 2, HD KD 3) (HA KA 0, HB KB 1, HC KC 2, HD KD 3, HE KE 4));
macro_rules! pfx { ($( [$($AH:ident $AK:ident),+] ($($p:ident $PK:ident),+) => ($($SH:ident $SK:ident),+) $suf:ty; )*) => {$(
	impl<$($AH: StorageHasher, $AK: FullCodec + 'static,)+ $($p: EncodeLike<$PK>),+> HasKeyPrefix<($($p,)+)> for ($(Key<$AH, $AK>,)+) { type Suffix = $suf; #[allow(non_snake_case)] fn partial(q: ($($p,)+)) -> Vec<u8> { let ($($p,)+) = q; Self::hash_parts(&[$($p.encode()),+]) } }
	impl<$($AH: ReversibleStorageHasher, $AK: FullCodec + 'static,)+ $($p: EncodeLike<$PK>),+> HasReversibleKeyPrefix<($($p,)+)> for ($(Key<$AH, $AK>,)+) { #[allow(non_snake_case, unused_parens)] fn decode_partial(r: &[u8]) -> Result<$suf, codec::Error> { $( let ($SK, r) = dec_key::<$SK, $SH>(r)?; )+ let _ = r; Ok(($($SK),+)) } }
)*} }
pfx! {
	[HA KA, HB KB] (P KA) => (HB KB) KB;
	[HA KA, HB KB, HC KC] (P KA) => (HB KB, HC KC) (KB, KC);
	[HA KA, HB KB, HC KC] (P KA, R KB) => (HC KC) KC;
	[HA KA, HB KB, HC KC, HD KD] (P KA) => (HB KB, HC KC, HD KD) (KB, KC, KD);
	[HA KA, HB KB, HC KC, HD KD] (P KA, R KB) => (HC KC, HD KD) (KC, KD);
	[HA KA, HB KB, HC KC, HD KD] (P KA, R KB, S KC) => (HD KD) KD;
}
pub struct StorageNMap<Prefix, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Key, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P, K, V, Q: QueryKindTrait<V, E>, E, M> StorageQuery for StorageNMap<P, K, V, Q, E, M> { type Query = Q::Query; }
impl<P: StorageInstance, K: KeyGenerator, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, K, V, Q, E, M> {
	map_core!();
	pub fn hashed_key_for<A: EncodeLikeTuple<K::KArg>>(k: A) -> Vec<u8> { let mut o = Self::final_prefix().to_vec(); o.extend(K::hash_parts(&k.parts())); o }
	fn part<A>(k: A) -> Vec<u8> where K: HasKeyPrefix<A> { let mut o = Self::final_prefix().to_vec(); o.extend(K::partial(k)); o }
	pub fn contains_key<A: EncodeLikeTuple<K::KArg>>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
	pub fn get<A: EncodeLikeTuple<K::KArg>>(k: A) -> Q::Query { Q::from_opt(get_k(&Self::hashed_key_for(k))) }
	pub fn try_get<A: EncodeLikeTuple<K::KArg>>(k: A) -> Result<V, ()> { get_k(&Self::hashed_key_for(k)).ok_or(()) }
	pub fn set<A: EncodeLikeTuple<K::KArg>>(k: A, q: Q::Query) { let k = Self::hashed_key_for(k); match Q::to_opt(q) { Some(v) => unhashed::put(&k, &v), None => unhashed::kill(&k) } }
	pub fn insert<A: EncodeLikeTuple<K::KArg>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
	pub fn remove<A: EncodeLikeTuple<K::KArg>>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
	pub fn take<A: EncodeLikeTuple<K::KArg>>(k: A) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(k))) }
	pub fn mutate<A: EncodeLikeTuple<K::KArg>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { Self::try_mutate(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate<A: EncodeLikeTuple<K::KArg>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { try_mutate_k::<V, Q, E, R, Er>(&Self::hashed_key_for(k), f) }
	pub fn mutate_exists<A: EncodeLikeTuple<K::KArg>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::try_mutate_exists(k, |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|n| match n {}) }
	pub fn try_mutate_exists<A: EncodeLikeTuple<K::KArg>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { try_mutate_exists_k(&Self::hashed_key_for(k), f) }
	pub fn clear_prefix<A>(k: A, limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults where K: HasKeyPrefix<A> { unhashed::clear_prefix(&Self::part(k), Some(limit), None) }
	pub fn remove_prefix<A>(k: A, limit: Option<u32>) -> MultiRemovalResults where K: HasKeyPrefix<A> { unhashed::clear_prefix(&Self::part(k), limit, None) }
	pub fn contains_prefix<A>(k: A) -> bool where K: HasKeyPrefix<A> { unhashed::contains_prefixed_key(&Self::part(k)) }
	pub fn iter_prefix_values<A>(k: A) -> PrefixIterator<V> where K: HasKeyPrefix<A>, V: 'static { let p = Self::part(k); PrefixIterator::raw(p.clone(), p, |_, mut v| V::decode(&mut v)) }
	pub fn iter_prefix<A>(k: A) -> PrefixIterator<(<K as HasKeyPrefix<A>>::Suffix, V)> where K: HasReversibleKeyPrefix<A>, V: 'static { let p = Self::part(k); PrefixIterator::raw(p.clone(), p, |k, mut v| Ok((K::decode_partial(k)?, V::decode(&mut v)?))) }
	pub fn iter_key_prefix<A>(k: A) -> KeyPrefixIterator<<K as HasKeyPrefix<A>>::Suffix> where K: HasReversibleKeyPrefix<A> { let p = Self::part(k); KeyPrefixIterator::new(p.clone(), p, |k| K::decode_partial(k)) }
	pub fn drain_prefix<A>(k: A) -> PrefixIterator<(<K as HasKeyPrefix<A>>::Suffix, V)> where K: HasReversibleKeyPrefix<A>, V: 'static { Self::iter_prefix(k).drain() }
}
impl<P: StorageInstance, K: ReversibleKeyGenerator, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, K, V, Q, E, M> {
	pub fn iter() -> PrefixIterator<(K::Key, V)> { let p = Self::final_prefix().to_vec(); PrefixIterator::raw(p.clone(), p, |k, mut v| Ok((K::decode_final(k)?.0, V::decode(&mut v)?))) }
	pub fn iter_keys() -> KeyPrefixIterator<K::Key> { let p = Self::final_prefix().to_vec(); KeyPrefixIterator::new(p.clone(), p, |k| Ok(K::decode_final(k)?.0)) }
	pub fn drain() -> PrefixIterator<(K::Key, V)> { Self::iter().drain() }
}
pub mod types {
	pub use super::{CountedStorageMap, EncodeLikeTuple, HasKeyPrefix, Key, KeyGenerator, NMapKey, OptionQuery, QueryKindTrait, StorageDoubleMap, StorageMap, StorageNMap, StorageQuery, StorageValue, ValueQuery};
}
pub mod bounded_vec { pub use sp_runtime::BoundedVec; }
pub mod child {}
