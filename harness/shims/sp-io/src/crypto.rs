//! secp256k1 public key recovery, by the book on 512-bit integers.
use primitive_types::{U256, U512};
fn p() -> U256 { U256::from_big_endian(&[0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFE,0xFF,0xFF,0xFC,0x2F]) }
fn n() -> U256 { U256::from_big_endian(&[0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFE,0xBA,0xAE,0xDC,0xE6,0xAF,0x48,0xA0,0x3B,0xBF,0xD2,0x5E,0x8C,0xD0,0x36,0x41,0x41]) }
fn g() -> (U256, U256) {
	(
		U256::from_big_endian(&[0x79,0xBE,0x66,0x7E,0xF9,0xDC,0xBB,0xAC,0x55,0xA0,0x62,0x95,0xCE,0x87,0x0B,0x07,0x02,0x9B,0xFC,0xDB,0x2D,0xCE,0x28,0xD9,0x59,0xF2,0x81,0x5B,0x16,0xF8,0x17,0x98]),
		U256::from_big_endian(&[0x48,0x3A,0xDA,0x77,0x26,0xA3,0xC4,0x65,0x5D,0xA4,0xFB,0xFC,0x0E,0x11,0x08,0xA8,0xFD,0x17,0xB4,0x48,0xA6,0x85,0x54,0x19,0x9C,0x47,0xD0,0x8F,0xFB,0x10,0xD4,0xB8]),
	)
}
fn mul(a: U256, b: U256, m: U256) -> U256 { U256::try_from(a.full_mul(b) % U512::from(m)).unwrap() }
fn add(a: U256, b: U256, m: U256) -> U256 { U256::try_from((U512::from(a) + U512::from(b)) % U512::from(m)).unwrap() }
fn sub(a: U256, b: U256, m: U256) -> U256 { U256::try_from((U512::from(a) + U512::from(m) - U512::from(b)) % U512::from(m)).unwrap() }
fn pow(mut a: U256, mut e: U256, m: U256) -> U256 {
	let mut r = U256::one();
	while !e.is_zero() { if e.bit(0) { r = mul(r, a, m); } a = mul(a, a, m); e = e >> 1; }
	r
}
fn inv(a: U256, m: U256) -> U256 { pow(a, m - U256::from(2), m) }
type Pt = Option<(U256, U256)>;
fn padd(a: Pt, b: Pt) -> Pt {
	let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.or(b) };
	let m = p();
	let l = if x1 == x2 {
		if y1 != y2 || y1.is_zero() { return None; }
		mul(mul(U256::from(3), mul(x1, x1, m), m), inv(mul(U256::from(2), y1, m), m), m)
	} else {
		mul(sub(y2, y1, m), inv(sub(x2, x1, m), m), m)
	};
	let x = sub(sub(mul(l, l, m), x1, m), x2, m);
	Some((x, sub(mul(l, sub(x1, x, m), m), y1, m)))
}
/// Double and add in Jacobian coordinates.
fn pmul(a: Pt, k: U256) -> Pt {
	let (x2, y2) = a?;
	let m = p();
	let (two, three, eight) = (U256::from(2), U256::from(3), U256::from(8));
	let (mut x, mut y, mut z) = (U256::one(), U256::one(), U256::zero());
	let double = |x: U256, y: U256, z: U256| {
		if z.is_zero() || y.is_zero() { return (U256::one(), U256::one(), U256::zero()); }
		let yy = mul(y, y, m);
		let s = mul(U256::from(4), mul(x, yy, m), m);
		let t = mul(three, mul(x, x, m), m);
		let nx = sub(mul(t, t, m), mul(two, s, m), m);
		let ny = sub(mul(t, sub(s, nx, m), m), mul(eight, mul(yy, yy, m), m), m);
		(nx, ny, mul(two, mul(y, z, m), m))
	};
	for i in (0..k.bits()).rev() {
		(x, y, z) = double(x, y, z);
		if !k.bit(i) { continue; }
		if z.is_zero() { (x, y, z) = (x2, y2, U256::one()); continue; }
		let zz = mul(z, z, m);
		let h = sub(mul(x2, zz, m), x, m);
		let r = sub(mul(y2, mul(zz, z, m), m), y, m);
		if h.is_zero() { (x, y, z) = if r.is_zero() { double(x, y, z) } else { (U256::one(), U256::one(), U256::zero()) }; continue; }
		let hh = mul(h, h, m);
		let hhh = mul(hh, h, m);
		let v = mul(x, hh, m);
		let nx = sub(sub(mul(r, r, m), hhh, m), mul(two, v, m), m);
		(x, y, z) = (nx, sub(mul(r, sub(v, nx, m), m), mul(y, hhh, m), m), mul(h, z, m));
	}
	if z.is_zero() { return None; }
	let zi = inv(z, m);
	let zz = mul(zi, zi, m);
	Some((mul(x, zz, m), mul(y, mul(zz, zi, m), m)))
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EcdsaVerifyError { BadRS, BadV, BadSignature }
thread_local! { static KNOWN: std::cell::RefCell<std::collections::HashMap<([u8; 65], [u8; 32]), Result<[u8; 64], EcdsaVerifyError>>> = Default::default(); }
/// Remembers results: recovery is a pure function, and slow here.
pub fn secp256k1_ecdsa_recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
	if let Some(r) = KNOWN.with(|k| k.borrow().get(&(*sig, *msg)).copied()) { return r }
	let r = recover(sig, msg);
	KNOWN.with(|k| { let mut k = k.borrow_mut(); if k.len() > 20_000 { k.clear(); } k.insert((*sig, *msg), r); });
	r
}
fn recover(sig: &[u8; 65], msg: &[u8; 32]) -> Result<[u8; 64], EcdsaVerifyError> {
	let (r, s) = (U256::from_big_endian(&sig[..32]), U256::from_big_endian(&sig[32..64]));
	let v = if sig[64] > 26 { sig[64] - 27 } else { sig[64] };
	if v > 3 { return Err(EcdsaVerifyError::BadV); }
	if r >= n() || s >= n() { return Err(EcdsaVerifyError::BadRS); }
	if r.is_zero() || s.is_zero() { return Err(EcdsaVerifyError::BadSignature); }
	let x = if v & 2 != 0 { match r.checked_add(n()) { Some(x) if x < p() => x, _ => return Err(EcdsaVerifyError::BadSignature) } } else { r };
	let y2 = add(mul(mul(x, x, p()), x, p()), U256::from(7), p());
	let mut y = pow(y2, (p() + U256::one()) >> 2, p());
	if mul(y, y, p()) != y2 { return Err(EcdsaVerifyError::BadSignature); }
	if y.bit(0) != (v & 1 == 1) { y = p() - y; }
	let z = U256::from_big_endian(msg) % n();
	let ri = inv(r, n());
	let q = padd(pmul(Some((x, y)), mul(s, ri, n())), pmul(Some(g()), mul(sub(U256::zero(), z, n()), ri, n())));
	let Some((qx, qy)) = q else { return Err(EcdsaVerifyError::BadSignature) };
	let mut o = [0u8; 64];
	qx.to_big_endian(&mut o[..32]);
	qy.to_big_endian(&mut o[32..]);
	Ok(o)
}
/// (uncompressed public key, recoverable signature): the signing side, for generators.
pub fn secp256k1_sign(secret: U256, nonce: U256, msg: &[u8; 32]) -> ([u8; 64], [u8; 65]) {
	let m = n();
	let (qx, qy) = pmul(Some(g()), secret).unwrap();
	let (rx, ry) = pmul(Some(g()), nonce).unwrap();
	let z = U256::from_big_endian(msg) % m;
	let r = rx % m;
	let s = mul(inv(nonce, m), add(z, mul(r, secret, m), m), m);
	let mut pk = [0u8; 64];
	qx.to_big_endian(&mut pk[..32]);
	qy.to_big_endian(&mut pk[32..]);
	let mut sig = [0u8; 65];
	r.to_big_endian(&mut sig[..32]);
	s.to_big_endian(&mut sig[32..64]);
	sig[64] = (ry.bit(0) as u8) | if rx >= m { 2 } else { 0 };
	(pk, sig)
}
