use tiny_keccak::{Hasher, Keccak};
pub fn keccak_256(d: &[u8]) -> [u8; 32] {
	let mut k = Keccak::v256();
	let mut o = [0u8; 32];
	k.update(d);
	k.finalize(&mut o);
	o
}
const IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub fn blake2b(d: &[u8], outlen: usize) -> Vec<u8> {
	let mut h = IV;
	h[0] ^= 0x01010000 ^ outlen as u64;
	let mut t = 0u128;
	let n = if d.is_empty() { 1 } else { (d.len() + 127) / 128 };
	for b in 0..n {
		let chunk = &d[b * 128..d.len().min((b + 1) * 128)];
		let mut buf = [0u8; 128];
		buf[..chunk.len()].copy_from_slice(chunk);
		t += chunk.len() as u128;
		let m: Vec<u64> = buf.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
		let mut v = [0u64; 16];
		v[..8].copy_from_slice(&h);
		v[8..].copy_from_slice(&IV);
		v[12] ^= t as u64;
		v[13] ^= (t >> 64) as u64;
		if b + 1 == n {
			v[14] = !v[14];
		}
		for r in 0..12 {
			let s = &SIGMA[r % 10];
			let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
				v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
				v[d] = (v[d] ^ v[a]).rotate_right(32);
				v[c] = v[c].wrapping_add(v[d]);
				v[b] = (v[b] ^ v[c]).rotate_right(24);
				v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
				v[d] = (v[d] ^ v[a]).rotate_right(16);
				v[c] = v[c].wrapping_add(v[d]);
				v[b] = (v[b] ^ v[c]).rotate_right(63);
			};
			g(0, 4, 8, 12, m[s[0]], m[s[1]]);
			g(1, 5, 9, 13, m[s[2]], m[s[3]]);
			g(2, 6, 10, 14, m[s[4]], m[s[5]]);
			g(3, 7, 11, 15, m[s[6]], m[s[7]]);
			g(0, 5, 10, 15, m[s[8]], m[s[9]]);
			g(1, 6, 11, 12, m[s[10]], m[s[11]]);
			g(2, 7, 8, 13, m[s[12]], m[s[13]]);
			g(3, 4, 9, 14, m[s[14]], m[s[15]]);
		}
		for i in 0..8 {
			h[i] ^= v[i] ^ v[i + 8];
		}
	}
	h.iter().flat_map(|x| x.to_le_bytes()).take(outlen).collect()
}
pub fn blake2_256(d: &[u8]) -> [u8; 32] { blake2b(d, 32).try_into().unwrap() }
pub fn blake2_128(d: &[u8]) -> [u8; 16] { blake2b(d, 16).try_into().unwrap() }
/// xxHash64
pub fn xx64(d: &[u8], seed: u64) -> u64 {
	const P: [u64; 5] = [0x9E3779B185EBCA87, 0xC2B2AE3D27D4EB4F, 0x165667B19E3779F9, 0x85EBCA77C2B2AE63, 0x27D4EB2F165667C5];
	let rd = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
	let round = |a: u64, x: u64| a.wrapping_add(x.wrapping_mul(P[1])).rotate_left(31).wrapping_mul(P[0]);
	let mut i = 0;
	let mut h = if d.len() >= 32 {
		let mut v = [seed.wrapping_add(P[0]).wrapping_add(P[1]), seed.wrapping_add(P[1]), seed, seed.wrapping_sub(P[0])];
		while i + 32 <= d.len() {
			for k in 0..4 {
				v[k] = round(v[k], rd(i + 8 * k));
			}
			i += 32;
		}
		let mut h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = (h ^ round(0, x)).wrapping_mul(P[0]).wrapping_add(P[3]);
		}
		h
	} else {
		seed.wrapping_add(P[4])
	};
	h = h.wrapping_add(d.len() as u64);
	while i + 8 <= d.len() {
		h = (h ^ round(0, rd(i))).rotate_left(27).wrapping_mul(P[0]).wrapping_add(P[3]);
		i += 8;
	}
	if i + 4 <= d.len() {
		h = (h ^ (u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64).wrapping_mul(P[0])).rotate_left(23).wrapping_mul(P[1]).wrapping_add(P[2]);
		i += 4;
	}
	while i < d.len() {
		h = (h ^ (d[i] as u64).wrapping_mul(P[4])).rotate_left(11).wrapping_mul(P[0]);
		i += 1;
	}
	h = (h ^ (h >> 33)).wrapping_mul(P[1]);
	h = (h ^ (h >> 29)).wrapping_mul(P[2]);
	h ^ (h >> 32)
}
pub fn twox_64(d: &[u8]) -> [u8; 8] { xx64(d, 0).to_le_bytes() }
pub fn twox_128(d: &[u8]) -> [u8; 16] {
	let mut o = [0; 16];
	o[..8].copy_from_slice(&xx64(d, 0).to_le_bytes());
	o[8..].copy_from_slice(&xx64(d, 1).to_le_bytes());
	o
}
pub fn twox_256(d: &[u8]) -> [u8; 32] {
	let mut o = [0; 32];
	for k in 0..4 {
		o[8 * k..8 * k + 8].copy_from_slice(&xx64(d, k as u64).to_le_bytes());
	}
	o
}
pub fn sha2_256(d: &[u8]) -> [u8; 32] { keccak_256(d) }
