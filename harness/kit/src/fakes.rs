//! Recording and table-driven collaborators for the mock runtimes.
use crate::AssetId;
use frame_support::weights::Weight;
use hydradx_traits::{OnCreatePoolHandler, OnLiquidityChangedHandler, OnTradeHandler, Source};
use hydra_dx_math::ratio::Ratio;
use sp_runtime::DispatchError;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
	Created(AssetId, AssetId),
	Trade { src: Source, a: (AssetId, AssetId), amount: (u128, u128), liq: (u128, u128), price: (u128, u128) },
	Liquidity { src: Source, a: (AssetId, AssetId), amount: (u128, u128), liq: (u128, u128), price: (u128, u128) },
	Custom(&'static str, Vec<u128>),
}
thread_local! { static ACTS: RefCell<Vec<Act>> = RefCell::new(vec![]); }
pub fn push(a: Act) { ACTS.with(|x| x.borrow_mut().push(a)) }
pub fn take_acts() -> Vec<Act> { ACTS.with(|x| std::mem::take(&mut *x.borrow_mut())) }
/// Records what pools report about themselves.
pub struct Recorder;
impl OnCreatePoolHandler<AssetId> for Recorder {
	fn on_create_pool(a: AssetId, b: AssetId) -> Result<(), DispatchError> { push(Act::Created(a, b)); Ok(()) }
}
impl OnTradeHandler<AssetId, u128, Ratio> for Recorder {
	fn on_trade(src: Source, a: AssetId, b: AssetId, x: u128, y: u128, la: u128, lb: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> {
		push(Act::Trade { src, a: (a, b), amount: (x, y), liq: (la, lb), price: (p.n, p.d) });
		Ok(Weight::zero())
	}
	fn on_trade_weight() -> Weight { Weight::zero() }
}
impl OnLiquidityChangedHandler<AssetId, u128, Ratio> for Recorder {
	fn on_liquidity_changed(src: Source, a: AssetId, b: AssetId, x: u128, y: u128, la: u128, lb: u128, p: Ratio) -> Result<Weight, (Weight, DispatchError)> {
		push(Act::Liquidity { src, a: (a, b), amount: (x, y), liq: (la, lb), price: (p.n, p.d) });
		Ok(Weight::zero())
	}
	fn on_liquidity_changed_weight() -> Weight { Weight::zero() }
}
thread_local! { static REG: RefCell<std::collections::BTreeMap<AssetId, (Option<u8>, u128, bool)>> = RefCell::new(Default::default()); }
/// asset id -> (decimals, existential deposit, sufficient)
pub fn set_registry(t: &[(AssetId, Option<u8>, u128, bool)]) { REG.with(|r| *r.borrow_mut() = t.iter().map(|x| (x.0, (x.1, x.2, x.3))).collect()) }
/// A registry given by `set_registry`.
pub struct Registry;
impl hydradx_traits::registry::Inspect for Registry {
	type AssetId = AssetId;
	type Location = u8;
	fn is_sufficient(a: AssetId) -> bool { REG.with(|r| r.borrow().get(&a).map(|x| x.2).unwrap_or(false)) }
	fn exists(a: AssetId) -> bool { REG.with(|r| r.borrow().contains_key(&a)) }
	fn decimals(a: AssetId) -> Option<u8> { REG.with(|r| r.borrow().get(&a).and_then(|x| x.0)) }
	fn asset_type(_: AssetId) -> Option<hydradx_traits::registry::AssetKind> { None }
	fn is_banned(_: AssetId) -> bool { false }
	fn asset_name(_: AssetId) -> Option<Vec<u8>> { None }
	fn asset_symbol(_: AssetId) -> Option<Vec<u8>> { None }
	fn existential_deposit(a: AssetId) -> Option<u128> { REG.with(|r| r.borrow().get(&a).map(|x| x.1)) }
}
/// Records what is put on the list of accounts that may hold dust.
pub struct White;
impl hydradx_traits::pools::DustRemovalAccountWhitelist<u64> for White {
	type Error = DispatchError;
	fn add_account(a: &u64) -> Result<(), DispatchError> { if faulty() { return Err("injected".into()) } push(Act::Custom("white", vec![*a as u128])); Ok(()) }
	fn remove_account(a: &u64) -> Result<(), DispatchError> { push(Act::Custom("unwhite", vec![*a as u128])); Ok(()) }
}
thread_local! { static FAULT: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// Injected failure of a collaborator; consumed by `faulty`.
pub fn set_fault(f: bool) { FAULT.with(|x| x.set(f)) }
pub fn faulty() -> bool { FAULT.with(|x| x.get()) }
/// Items with owners in collections, kept in storage so that they take part in transactions.
pub struct NftOf<Acc, C, I>(std::marker::PhantomData<(Acc, C, I)>);
pub type Nft = NftOf<u64, u32, u32>;
use codec::{Codec, Decode, Encode};
use frame_support::traits::tokens::nonfungibles as nf;
fn npre<C: Encode>(c: &C) -> Vec<u8> { let mut k = b"fake-nft".to_vec(); k.extend(c.encode()); k }
fn nkey<C: Encode, I: Encode>(c: &C, i: &I) -> Vec<u8> { let mut k = npre(c); k.extend(i.encode()); k }
impl<Acc: Codec, C: Codec, I: Codec> nf::Inspect<Acc> for NftOf<Acc, C, I> {
	type ItemId = I;
	type CollectionId = C;
	fn owner(c: &C, i: &I) -> Option<Acc> { sp_io::storage::get(&nkey(c, i)).map(|v| Acc::decode(&mut &v[..]).unwrap()) }
}
impl<Acc: Codec, C: Codec, I: Codec> nf::Create<Acc> for NftOf<Acc, C, I> { fn create_collection(_: &C, _: &Acc, _: &Acc) -> Result<(), DispatchError> { Ok(()) } }
impl<Acc: Codec + PartialEq, C: Codec, I: Codec> nf::Mutate<Acc> for NftOf<Acc, C, I> {
	fn mint_into(c: &C, i: &I, w: &Acc) -> Result<(), DispatchError> {
		if sp_io::storage::exists(&nkey(c, i)) { return Err("item exists".into()); }
		sp_io::storage::set(&nkey(c, i), &w.encode());
		Ok(())
	}
	fn burn(c: &C, i: &I, check: Option<&Acc>) -> Result<(), DispatchError> {
		let o = <Self as nf::Inspect<Acc>>::owner(c, i).ok_or("no item")?;
		if check.map_or(false, |w| *w != o) { return Err("not the owner".into()); }
		sp_io::storage::clear(&nkey(c, i));
		Ok(())
	}
}
impl<Acc: Codec, C: Codec, I: Codec> nf::Transfer<Acc> for NftOf<Acc, C, I> {
	fn transfer(c: &C, i: &I, d: &Acc) -> Result<(), DispatchError> {
		if !sp_io::storage::exists(&nkey(c, i)) { return Err("no item".into()); }
		sp_io::storage::set(&nkey(c, i), &d.encode());
		Ok(())
	}
}
impl<Acc: Codec + PartialEq, C: Codec, I: Codec> nf::InspectEnumerable<Acc> for NftOf<Acc, C, I> {
	type CollectionsIterator = std::vec::IntoIter<C>;
	type ItemsIterator = std::vec::IntoIter<I>;
	type OwnedIterator = std::vec::IntoIter<(C, I)>;
	type OwnedInCollectionIterator = std::vec::IntoIter<I>;
	fn collections() -> Self::CollectionsIterator { vec![].into_iter() }
	fn items(c: &C) -> Self::ItemsIterator {
		let p = npre(c);
		sp_io::storage::snapshot().into_iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, _)| I::decode(&mut &k[p.len()..]).unwrap()).collect::<Vec<_>>().into_iter()
	}
	fn owned(_: &Acc) -> Self::OwnedIterator { vec![].into_iter() }
	fn owned_in_collection(c: &C, w: &Acc) -> Self::OwnedInCollectionIterator {
		Self::items(c).filter(|i| <Self as nf::Inspect<Acc>>::owner(c, i).as_ref() == Some(w)).collect::<Vec<_>>().into_iter()
	}
}
/// Accounts that may hold dust, kept in storage. Adding twice or removing what is not there fails.
pub struct Whitelist<Acc>(std::marker::PhantomData<Acc>);
fn wkey<Acc: Encode>(a: &Acc) -> Vec<u8> { let mut k = b"fake-white".to_vec(); k.extend(a.encode()); k }
impl<Acc: Codec> hydradx_traits::pools::DustRemovalAccountWhitelist<Acc> for Whitelist<Acc> {
	type Error = DispatchError;
	fn add_account(a: &Acc) -> Result<(), DispatchError> { if sp_io::storage::exists(&wkey(a)) { return Err("already listed".into()) } sp_io::storage::set(&wkey(a), &[1]); Ok(()) }
	fn remove_account(a: &Acc) -> Result<(), DispatchError> { if !sp_io::storage::exists(&wkey(a)) { return Err("not listed".into()) } sp_io::storage::clear(&wkey(a)); Ok(()) }
}
impl<Acc: Codec> frame_support::traits::Contains<Acc> for Whitelist<Acc> { fn contains(a: &Acc) -> bool { sp_io::storage::exists(&wkey(a)) } }
impl<Acc: Codec> Whitelist<Acc> {
	pub fn all() -> Vec<Acc> { sp_io::storage::snapshot().into_keys().filter(|k| k.starts_with(b"fake-white")).map(|k| Acc::decode(&mut &k[10..]).unwrap()).collect() }
}
