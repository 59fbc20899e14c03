use sp_core::hashing::*;
pub trait StorageHasher: 'static { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; fn max_len<K: codec::MaxEncodedLen>() -> usize { 0 } }
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
macro_rules! h { ($($n:ident),*) => {$(#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n;)*} }
h!(Identity, Twox64Concat, Blake2_128Concat, Blake2_128, Blake2_256, Twox128, Twox256);
fn cat(h: &[u8], x: &[u8]) -> Vec<u8> { let mut v = Vec::with_capacity(h.len() + x.len()); v.extend_from_slice(h); v.extend_from_slice(x); v }
impl StorageHasher for Identity { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { x.to_vec() } }
impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
impl StorageHasher for Twox64Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { cat(&twox_64(x), x) } }
impl ReversibleStorageHasher for Twox64Concat { fn reverse(x: &[u8]) -> &[u8] { if x.len() < 8 { &[] } else { &x[8..] } } }
impl StorageHasher for Blake2_128Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { cat(&blake2_128(x), x) } }
impl ReversibleStorageHasher for Blake2_128Concat { fn reverse(x: &[u8]) -> &[u8] { if x.len() < 16 { &[] } else { &x[16..] } } }
impl StorageHasher for Blake2_128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { blake2_128(x) } }
impl StorageHasher for Blake2_256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { blake2_256(x) } }
impl StorageHasher for Twox128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { twox_128(x) } }
impl StorageHasher for Twox256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { twox_256(x) } }
