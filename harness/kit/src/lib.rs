//! Shared parts of the stateful checks: runtime boilerplate, amount generator, ledger model, histories.
pub use pbt::gen::*;
pub use pbt::proptest;
pub use pbt::proptest::prelude::*;
pub use pbt::*;
pub use serde::{Deserialize, Serialize};
pub use frame_support::{construct_runtime, parameter_types};
pub use orml_traits::{MultiCurrency, MultiCurrencyExtended, MultiReservableCurrency, MultiLockableCurrency};
pub use frame_support::traits::{ConstBool, ConstU128, ConstU32, ConstU64, ConstU8, Everything, Get, Nothing};
pub use sp_io::TestExternalities;
pub use sp_runtime::{BuildStorage, DispatchError, DispatchResult, FixedU128, Perbill, Percent, Permill, Perquintill};
use std::collections::BTreeMap;

pub type AssetId = u32;
pub type Balance = u128;
pub const ONE: u128 = 1_000_000_000_000;

/// An amount relative to some reference (a balance, a reserve) known only when the operation runs.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum A { Abs(u128), Part(u32), Off(i16) }
impl A {
	pub fn of(&self, r: u128) -> u128 {
		match self {
			A::Abs(x) => *x,
			A::Part(p) => (U256::from(r) * U256::from(*p) / U256::from(1_000_000u32)).low_u128(),
			A::Off(d) => if *d >= 0 { r.saturating_add(*d as u128) } else { r.saturating_sub(d.unsigned_abs() as u128) },
		}
	}
}
/// Mostly fractions of the reference, sometimes its boundary, sometimes any magnitude.
pub fn amt() -> BoxedStrategy<A> {
	prop_oneof![6 => (0u32..=1_050_000).prop_map(A::Part), 5 => (0u32..=30_000).prop_map(A::Part), 2 => (-2i16..=2).prop_map(A::Off), 2 => mag(0, 1 << 100).prop_map(A::Abs)].boxed()
}
/// Amounts that mostly succeed as a trade.
pub fn small_amt() -> BoxedStrategy<A> {
	prop_oneof![8 => (0u32..=100_000).prop_map(A::Part), 3 => (0u32..=1000).prop_map(A::Part), 2 => (0u32..=1_050_000).prop_map(A::Part), 1 => (-2i16..=2).prop_map(A::Off), 1 => mag(0, 1 << 100).prop_map(A::Abs)].boxed()
}

/// A trade limit relative to the exact outcome: mostly generous, often exactly at the outcome or one unit off.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Lim { Loose, At(i8), Abs(u128) }
impl Lim {
	/// minimum wanted
	pub fn min(&self, exact: Option<u128>) -> u128 { match (self, exact) { (Lim::At(d), Some(x)) => add(x, *d), (Lim::Abs(x), _) => *x, _ => 0 } }
	/// maximum to pay
	pub fn max(&self, exact: Option<u128>) -> u128 { match (self, exact) { (Lim::At(d), Some(x)) => add(x, *d), (Lim::Abs(x), _) => *x, _ => u128::MAX } }
}
fn add(x: u128, d: i8) -> u128 { if d >= 0 { x.saturating_add(d as u128) } else { x.saturating_sub(d.unsigned_abs() as u128) } }
pub fn lim() -> BoxedStrategy<Lim> { prop_oneof![6 => Just(Lim::Loose), 4 => (-1i8..=1).prop_map(Lim::At), 1 => mag(0, 1 << 100).prop_map(Lim::Abs)].boxed() }

/// Exact integer ledger: balances per (account, asset) and issuance per asset. Existential deposits are one
/// unless listed in `eds`; accounts in `white` may hold less.
#[derive(Clone, Debug, PartialEq)]
pub struct Ledger<K: Ord + Clone = u64> { pub bal: BTreeMap<(K, AssetId), u128>, pub issued: BTreeMap<AssetId, u128>, pub eds: BTreeMap<AssetId, u128>, pub white: std::collections::BTreeSet<K>, pub locks: BTreeMap<(K, AssetId), u128> }
impl<K: Ord + Clone> Default for Ledger<K> { fn default() -> Self { Ledger { bal: Default::default(), issued: Default::default(), eds: Default::default(), white: Default::default(), locks: Default::default() } } }
impl<K: Ord + Clone> Ledger<K> {
	pub fn get(&self, w: &K, a: AssetId) -> u128 { self.bal.get(&(w.clone(), a)).copied().unwrap_or(0) }
	pub fn total(&self, a: AssetId) -> u128 { self.issued.get(&a).copied().unwrap_or(0) }
	fn set(&mut self, w: &K, a: AssetId, v: u128) { if v == 0 { self.bal.remove(&(w.clone(), a)); } else { self.bal.insert((w.clone(), a), v); } }
	pub fn ed(&self, a: AssetId) -> u128 { self.eds.get(&a).copied().unwrap_or(1) }
	pub fn mint(&mut self, w: &K, a: AssetId, v: u128) -> Option<()> {
		if v == 0 { return Some(()); }
		if v < self.ed(a) && self.get(w, a) == 0 && !self.white.contains(w) { return None; }
		let t = self.total(a).checked_add(v)?;
		let n = self.get(w, a).checked_add(v)?;
		self.issued.insert(a, t);
		self.set(w, a, n);
		Some(())
	}
	/// part of the balance that cannot leave the account
	pub fn locked(&self, w: &K, a: AssetId) -> u128 { self.locks.get(&(w.clone(), a)).copied().unwrap_or(0) }
	pub fn burn(&mut self, w: &K, a: AssetId, v: u128) -> Option<()> {
		if v == 0 { return Some(()); }
		let n = self.get(w, a).checked_sub(v)?;
		if n < self.locked(w, a) { return None; }
		self.issued.insert(a, self.total(a) - v);
		self.set(w, a, n);
		Some(())
	}
	pub fn mv(&mut self, a: AssetId, f: &K, t: &K, v: u128) -> Option<()> {
		if f == t || v == 0 { return Some(()); } // as in orml-tokens
		let n = self.get(f, a).checked_sub(v)?;
		if n < self.locked(f, a) { return None; }
		let m = self.get(t, a).checked_add(v)?;
		if m < self.ed(a) && !self.white.contains(t) { return None; }
		self.set(f, a, n);
		self.set(t, a, m);
		Some(())
	}
	pub fn sum(&self, a: AssetId) -> u128 { self.bal.iter().filter(|((_, x), _)| *x == a).map(|(_, v)| *v).sum() }
}

/// Run one case in fresh storage.
pub fn fresh<R>(s: sp_core::storage::Storage, f: impl FnOnce() -> R) -> R { TestExternalities::new(s).execute_with(f) }
pub fn state() -> BTreeMap<Vec<u8>, Vec<u8>> { sp_io::storage::snapshot() }
/// A refused call leaves no trace. Returns the call's own result.
pub fn atomic<T, E>(what: impl FnOnce() -> String, f: impl FnOnce() -> Result<T, E>) -> Result<Result<T, E>, String> {
	let before = state();
	let r = f();
	if r.is_err() {
		let after = state();
		if after != before {
			let k = after.iter().find(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0.clone()).or_else(|| before.keys().find(|k| !after.contains_key(*k)).cloned());
			return Err(format!("{}: refused call changed storage at {:02x?}", what(), k));
		}
	}
	Ok(r)
}
/// The outcome wanted by the model and the outcome of the code agree.
pub fn agree<T, E: std::fmt::Debug, M>(what: impl FnOnce() -> String, code: &Result<T, E>, model: &Option<M>) -> Res {
	match (code, model) {
		(Ok(_), Some(_)) | (Err(_), None) => Ok(()),
		(Ok(_), None) => Err(format!("{}: accepted, must be refused", what())),
		(Err(e), Some(_)) => Err(format!("{}: refused ({e:?}), must be accepted", what())),
	}
}
pub fn md(a: u128, b_: u128, c: u128) -> Option<u128> { if c == 0 { return None } small(b(a) * b(b_) / b(c)) }
pub fn md_up(a: u128, b_: u128, c: u128) -> Option<u128> { if c == 0 { return None } small(ceil_div(b(a) * b(b_), b(c))) }
/// A `Ledger` compared with what a runtime reports.
pub fn same_ledger<K: Ord + Clone + std::fmt::Debug>(l: &Ledger<K>, accounts: &[K], assets: &[AssetId], bal: impl Fn(AssetId, &K) -> u128, issued: impl Fn(AssetId) -> u128) -> Res {
	for a in assets {
		for w in accounts {
			let (g, want) = (bal(*a, w), l.get(w, *a));
			if g != want { return Err(format!("balance of {w:?} in asset {a}: {g}, expected {want}")); }
		}
		let (g, want) = (issued(*a), l.total(*a));
		if g != want { return Err(format!("issuance of asset {a}: {g}, expected {want}")); }
	}
	Ok(())
}

/// `frame_system::Config` for a mock runtime with `u64` or other account ids.
#[macro_export]
macro_rules! system_config {
	($rt:ident, $acc:ty, $data:ty) => {
		impl frame_system::Config for $rt {
			type BaseCallFilter = $crate::Everything;
			type BlockWeights = ();
			type BlockLength = ();
			type RuntimeOrigin = RuntimeOrigin;
			type RuntimeCall = RuntimeCall;
			type RuntimeTask = RuntimeTask;
			type Nonce = u64;
			type Block = frame_system::mocking::MockBlock<$rt>;
			type Hash = sp_core::H256;
			type Hashing = sp_runtime::traits::BlakeTwo256;
			type AccountId = $acc;
			type Lookup = sp_runtime::traits::IdentityLookup<$acc>;
			type RuntimeEvent = RuntimeEvent;
			type BlockHashCount = $crate::ConstU64<250>;
			type DbWeight = ();
			type Version = ();
			type PalletInfo = PalletInfo;
			type AccountData = $data;
			type OnNewAccount = ();
			type OnKilledAccount = ();
			type SystemWeightInfo = ();
			type SS58Prefix = $crate::ConstU16_63;
			type OnSetCode = ();
			type MaxConsumers = $crate::ConstU32<16>;
		}
	};
}
pub struct ConstU16_63;
impl Get<u16> for ConstU16_63 { fn get() -> u16 { 63 } }
#[macro_export]
macro_rules! tokens_config {
	($rt:ident, $ed:ty, $whitelist:ty, $hooks:ty) => {
		impl orml_tokens::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type Balance = u128;
			type Amount = i128;
			type CurrencyId = u32;
			type WeightInfo = ();
			type ExistentialDeposits = $ed;
			type MaxLocks = $crate::ConstU32<50>;
			type DustRemovalWhitelist = $whitelist;
			type ReserveIdentifier = [u8; 8];
			type MaxReserves = $crate::ConstU32<50>;
			type CurrencyHooks = $hooks;
		}
	};
}
orml_traits::parameter_type_with_key! { pub OneEd: |_c: u32| -> u128 { 1 }; }

/// Events of the current block, cleared.
#[macro_export]
macro_rules! take_events {
	($rt:ident) => {{ let e: Vec<RuntimeEvent> = frame_system::Pallet::<$rt>::events().into_iter().map(|r| r.event).collect(); frame_system::Pallet::<$rt>::reset_events(); e }};
}
/// The condition holds or the case fails with the message.
#[macro_export]
macro_rules! must { ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)) } } }
pub mod routed;
pub mod fakes;
pub mod lm;
/// floor(n / d) when it exists and fits
pub fn quo(n: U1024, d: U1024) -> Option<u128> { if d.is_zero() { None } else { small(n / d) } }
pub fn quo_up(n: U1024, d: U1024) -> Option<u128> { if d.is_zero() { None } else { small(ceil_div(n, d)) } }
