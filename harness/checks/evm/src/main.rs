//! The EVM side of the runtime: assets as contracts (C55), permits (C56), fees and validation (C57).
mod erc20;
mod fees;
mod permit;
use hydradx_evm::*;
use kit::*;
use sp_core::{H160, U256 as W};
use sp_runtime::AccountId32;

#[macro_export]
macro_rules! eq { ($what:expr, $a:expr, $b:expr) => { { let (a, b) = ($a, $b); if a != b { return Err(format!("{}: {:?}, expected {:?}", $what, a, b)) } } } }
fn adr(i: u8) -> H160 { let mut d = [0u8; 20]; match i { 0 => {} 1 => d = [0xff; 20], 2 => for (k, x) in d.iter_mut().enumerate() { *x = k as u8 + 1 }, 3 => { d[15] = 1; d[19] = 1 } _ => d = [i; 20] } H160(d) }
/// the account an address stands for when nobody bound it
fn plain(a: H160) -> [u8; 32] { let mut d = [0u8; 32]; d[..4].copy_from_slice(b"ETH\0"); d[4..24].copy_from_slice(&a.0); d }
/// an account whose address is `a`
fn full(a: H160) -> [u8; 32] { let mut d = [0x5a; 32]; d[..20].copy_from_slice(&a.0); d }
fn id(a: [u8; 32]) -> AccountId32 { AccountId32::new(a) }
fn word(w: W) -> Vec<u8> { let mut b = [0u8; 32]; w.to_big_endian(&mut b); b.to_vec() }
fn genesis() -> sp_core::storage::Storage { frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap() }
fn bind(a: H160) -> bool { EVMAccounts::bind_evm_address(frame_system::RawOrigin::Signed(id(full(a))).into()).is_ok() }
fn mint(w: &[u8; 32], a: u32, x: u128) -> bool { <Currencies as MultiCurrency<AccountId32>>::deposit(a, &id(*w), x).is_ok() }

fn main() {
	let id = std::env::args().nth(1).unwrap_or("C55".into());
	let mut c = Ctx::new(&id);
	match id.as_str() {
		"C55" => erc20::run(&mut c),
		"C56" => permit::run(&mut c),
		_ => fees::run(&mut c),
	}
	std::process::exit(c.finish());
}
