use codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen};
use scale_info::TypeInfo;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut};
use std::slice::SliceIndex;

pub trait Get<T> { fn get() -> T; }
impl<T: Default> Get<T> for () { fn get() -> T { T::default() } }
/// Always the default of whatever is asked for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault { fn get() -> T { T::default() } }
pub trait TypedGet { type Type; fn get() -> Self::Type; }
macro_rules! c { ($($n:ident $t:ty),*) => {$(
	#[derive(Default, Clone, Copy, PartialEq, Eq, Debug, TypeInfo)]
	pub struct $n<const T: $t>;
	impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
	impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
	impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
)*} }
c!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> { type Error = &'a [T]; fn try_from(t: &'a [T]) -> Result<Self, &'a [T]> { if t.len() <= S::get() as usize { Ok(Self(t, PhantomData)) } else { Err(t) } } }
impl<T: scale_info::TypeInfo + 'static, S> TypeInfo for BoundedVec<T, S> where S: 'static {
	type Identity = Self;
	fn type_info() -> scale_info::Type { scale_info::Type::builder().path(scale_info::Path::new("BoundedVec", "bounded_collections")).composite(scale_info::build::Fields::unnamed().field(|f| f.ty::<Vec<T>>())) }
}
impl<T: Clone, S> Clone for BoundedVec<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedVec<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_tuple("BoundedVec").field(&self.0).finish() } }
impl<T, S> Default for BoundedVec<T, S> { fn default() -> Self { Self(vec![], PhantomData) } }
impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> { fn eq(&self, o: &BoundedVec<T, S2>) -> bool { self.0 == o.0 } }
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl<T: Ord, S> Ord for BoundedVec<T, S> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T: std::hash::Hash, S> std::hash::Hash for BoundedVec<T, S> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: Encode, S> Encode for BoundedVec<T, S> { fn encode_to<O: codec::Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } fn size_hint(&self) -> usize { self.0.size_hint() } }
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
		let v = Vec::<T>::decode(i)?;
		if v.len() > S::get() as usize { return Err("BoundedVec exceeds its limit".into()); }
		Ok(Self(v, PhantomData))
	}
}
impl<T, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> where T: MaxEncodedLen {
	fn max_encoded_len() -> usize { codec::Compact(S::get()).encoded_size() + (S::get() as usize) * T::max_encoded_len() }
}
impl<T, S> EncodeLike for BoundedVec<T, S> where T: Encode {}
impl<T, S> EncodeLike<Vec<T>> for BoundedVec<T, S> where T: Encode {}
impl<T, S> BoundedVec<T, S> {
	pub fn into_inner(self) -> Vec<T> { self.0 }
	pub fn unchecked_from(v: Vec<T>) -> Self { Self(v, PhantomData) }
	pub fn as_slice(&self) -> &[T] { &self.0 }
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
	pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> { self.0.get_mut(i) }
	pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
	pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
	pub fn pop(&mut self) -> Option<T> { self.0.pop() }
	pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn sort(&mut self) where T: Ord { self.0.sort() }
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
	pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn new() -> Self { Self::default() }
	pub fn bound() -> usize { S::get() as usize }
	pub fn with_bounded_capacity(_: usize) -> Self { Self::default() }
	pub fn with_max_capacity() -> Self { Self::default() }
	pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
	pub fn try_push(&mut self, t: T) -> Result<(), T> { if self.is_full() { Err(t) } else { self.0.push(t); Ok(()) } }
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> { if self.is_full() { Err(t) } else { self.0.insert(i, t); Ok(()) } }
	pub fn try_extend(&mut self, w: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if self.0.len().saturating_add(w.len()) <= Self::bound() { self.0.extend(w); Ok(()) } else { Err(()) }
	}
	pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if self.0.len().saturating_add(o.len()) <= Self::bound() { self.0.append(o); Ok(()) } else { Err(()) } }
	pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); Self(v, PhantomData) }
	pub fn force_push(&mut self, t: T) { self.try_push(t).ok().expect("full") }
	pub fn force_insert(&mut self, i: usize, t: T) { self.try_insert(i, t).ok().expect("full") }
	pub fn bounded_resize(&mut self, n: usize, t: T) where T: Clone { let n = n.min(Self::bound()); self.0.resize(n, t) }
	pub fn retain_mut(&mut self, f: impl FnMut(&mut T) -> bool) { self.0.retain_mut(f) }
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then(|| self) }
	pub fn try_collect(i: impl IntoIterator<Item = T>) -> Result<Self, Vec<T>> { Self::try_from(i.into_iter().collect::<Vec<_>>()) }
	pub fn force_insert_keep_right(&mut self, index: usize, mut element: T) -> Result<Option<T>, ()> {
		if Self::bound() < index || self.0.len() < index { return Err(()); }
		if self.0.len() < Self::bound() { self.0.insert(index, element); return Ok(None); }
		if index == 0 { return Err(()); }
		std::mem::swap(&mut self.0[0], &mut element);
		self.0[0..index].rotate_left(1);
		Ok(Some(element))
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok(Self(v, PhantomData)) } else { Err(v) } } }
impl<T, S> From<BoundedVec<T, S>> for Vec<T> { fn from(v: BoundedVec<T, S>) -> Vec<T> { v.0 } }
impl<T, S> Deref for BoundedVec<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
impl<T, S> AsRef<[T]> for BoundedVec<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
impl<T, S> AsMut<[T]> for BoundedVec<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { self.0.index(i) } }
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { self.0.index_mut(i) } }
impl<T, S> IntoIterator for BoundedVec<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, T, S> IntoIterator for &'a mut BoundedVec<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<T, S> codec::DecodeLength for BoundedVec<T, S> { fn len(d: &[u8]) -> Result<usize, codec::Error> { <Vec<T> as codec::DecodeLength>::len(d) } }
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Self::try_from(Vec::<T>::deserialize(d)?).map_err(|_| serde::de::Error::custom("out of bounds")) }
}

pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<K: std::fmt::Debug, V: std::fmt::Debug, S> std::fmt::Debug for BoundedBTreeMap<K, V, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<K: PartialEq, V: PartialEq, S> PartialEq for BoundedBTreeMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> { fn default() -> Self { Self(BTreeMap::new(), PhantomData) } }
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> { type Target = BTreeMap<K, V>; fn deref(&self) -> &BTreeMap<K, V> { &self.0 } }
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> { fn encode_to<O: codec::Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let v = BTreeMap::<K, V>::decode(i)?; if v.len() > S::get() as usize { return Err("BoundedBTreeMap exceeds its limit".into()); } Ok(Self(v, PhantomData)) }
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize { codec::Compact(S::get()).encoded_size() + (S::get() as usize) * (K::max_encoded_len() + V::max_encoded_len()) }
}
impl<K: TypeInfo + 'static, V: TypeInfo + 'static, S: 'static> TypeInfo for BoundedBTreeMap<K, V, S> { type Identity = Self; fn type_info() -> scale_info::Type { scale_info::Type::builder().path(scale_info::Path::new("BoundedBTreeMap", "bounded_collections")).composite(scale_info::build::Fields::unnamed().field(|f| f.ty::<BTreeMap<K, V>>())) } }
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self { Self::default() }
	pub fn bound() -> usize { S::get() as usize }
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> { if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) } }
	pub fn remove(&mut self, k: &K) -> Option<V> { self.0.remove(k) }
	pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.0.get_mut(k) }
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
	pub fn into_inner(self) -> BTreeMap<K, V> { self.0 }
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> { type Error = (); fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> { if v.len() <= S::get() as usize { Ok(Self(v, PhantomData)) } else { Err(()) } } }
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> { type Item = (K, V); type IntoIter = std::collections::btree_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }

pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<S>);
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> { fn clone(&self) -> Self { Self(self.0.clone(), PhantomData) } }
impl<T, S> Default for BoundedBTreeSet<T, S> { fn default() -> Self { Self(BTreeSet::new(), PhantomData) } }
impl<T, S> Deref for BoundedBTreeSet<T, S> { type Target = BTreeSet<T>; fn deref(&self) -> &BTreeSet<T> { &self.0 } }
impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedBTreeSet<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn try_insert(&mut self, t: T) -> Result<bool, T> { if self.0.len() < S::get() as usize || self.0.contains(&t) { Ok(self.0.insert(t)) } else { Err(t) } }
	pub fn remove(&mut self, t: &T) -> bool { self.0.remove(t) }
}
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T: Encode, S> Encode for BoundedBTreeSet<T, S> { fn encode_to<O: codec::Output + ?Sized>(&self, d: &mut O) { self.0.encode_to(d) } }
impl<T: Encode, S> EncodeLike for BoundedBTreeSet<T, S> {}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> { let v = BTreeSet::<T>::decode(i)?; if v.len() > S::get() as usize { return Err("BoundedBTreeSet exceeds its limit".into()); } Ok(Self(v, PhantomData)) }
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> { fn max_encoded_len() -> usize { codec::Compact(S::get()).encoded_size() + (S::get() as usize) * T::max_encoded_len() } }
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedBTreeSet<T, S> { type Identity = (); fn type_info() -> scale_info::Type { <() as TypeInfo>::type_info() } }
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> { pub fn new() -> Self { Self::default() } pub fn into_inner(self) -> BTreeSet<T> { self.0 } pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) } }
impl<T: Ord, S: Get<u32>> TryFrom<BTreeSet<T>> for BoundedBTreeSet<T, S> { type Error = (); fn try_from(v: BTreeSet<T>) -> Result<Self, ()> { if v.len() <= S::get() as usize { Ok(Self(v, PhantomData)) } else { Err(()) } } }
impl<T, S> IntoIterator for BoundedBTreeSet<T, S> { type Item = T; type IntoIter = std::collections::btree_set::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
pub mod alloc { pub use std::*; }
