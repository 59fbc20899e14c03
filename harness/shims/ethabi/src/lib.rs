//! Stand-in for `ethabi`: tokens and their encoding (contract ABI, head and tail).
use primitive_types::{H160, U256};
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Token { Address(H160), FixedBytes(Vec<u8>), Bytes(Vec<u8>), Int(U256), Uint(U256), Bool(bool), String(String), FixedArray(Vec<Token>), Array(Vec<Token>), Tuple(Vec<Token>) }
fn word(x: U256) -> Vec<u8> { let mut b = [0u8; 32]; x.to_big_endian(&mut b); b.to_vec() }
fn pad(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); while v.len() % 32 != 0 { v.push(0) } v }
impl Token {
	fn dynamic(&self) -> bool { match self { Self::Bytes(_) | Self::String(_) | Self::Array(_) => true, Self::FixedArray(t) | Self::Tuple(t) => t.iter().any(|t| t.dynamic()), _ => false } }
	fn body(&self) -> Vec<u8> {
		match self {
			Self::Address(a) => word(U256::from_big_endian(&a.0)),
			Self::Int(x) | Self::Uint(x) => word(*x),
			Self::Bool(b) => word(U256::from(*b as u8)),
			Self::FixedBytes(b) => pad(b),
			Self::Bytes(b) => [word(b.len().into()), pad(b)].concat(),
			Self::String(s) => [word(s.len().into()), pad(s.as_bytes())].concat(),
			Self::FixedArray(t) | Self::Tuple(t) => encode(t),
			Self::Array(t) => [word(t.len().into()), encode(t)].concat(),
		}
	}
}
pub fn encode(tokens: &[Token]) -> Vec<u8> {
	let heads: usize = tokens.iter().map(|t| if t.dynamic() { 32 } else { t.body().len() }).sum();
	let (mut head, mut tail) = (vec![], vec![]);
	for t in tokens { if t.dynamic() { head.extend(word((heads + tail.len()).into())); tail.extend(t.body()) } else { head.extend(t.body()) } }
	head.extend(tail);
	head
}
