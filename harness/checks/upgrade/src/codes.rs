//! Codes of the parachains, registered in advance. A runtime of its own: accounts are 32 bytes there.
use crate::*;
use frame_support::PalletId;
use pallet_referrals::{FeeDistribution, Level};
use sp_runtime::AccountId32 as Acc;
mod rt {
	use super::*;
	construct_runtime!(pub enum Wide { System: frame_system, Tokens: orml_tokens, Referrals: pallet_referrals });
	system_config!(Wide, Acc, ());
	tokens_config!(Wide, OneEd, Nothing, ());
	pub struct Table;
	impl orml_traits::GetByKey<Level, (u128, FeeDistribution)> for Table { fn get(_: &Level) -> (u128, FeeDistribution) { (0, FeeDistribution::default()) } }
	pub struct Prices;
	impl hydradx_traits::price::PriceProvider<AssetId> for Prices { type Price = hydra_dx_math::ratio::Ratio; fn get_price(_: AssetId, _: AssetId) -> Option<Self::Price> { None } }
	pub struct Market;
	impl pallet_referrals::traits::Convert<Acc, AssetId, u128> for Market { type Error = DispatchError; fn convert(_: Acc, _: AssetId, _: AssetId, _: u128) -> Result<u128, DispatchError> { Err(DispatchError::Unavailable) } }
	parameter_types! { pub RegFee: (AssetId, u128, Acc) = (1, 0, Acc::new([8; 32])); pub External: Option<Acc> = None; pub const Seed: u128 = 0; pub const Pid: PalletId = PalletId(*b"referral"); }
	impl pallet_referrals::Config for Wide {
		type RuntimeEvent = RuntimeEvent;
		type AuthorityOrigin = frame_system::EnsureRoot<Acc>;
		type AssetId = AssetId;
		type Currency = Tokens;
		type Convert = Market;
		type PriceProvider = Prices;
		type RewardAsset = ConstU32<0>;
		type PalletId = Pid;
		type RegistrationFee = RegFee;
		type CodeLength = ConstU32<10>;
		type MinCodeLength = ConstU32<3>;
		type LevelVolumeAndRewardPercentages = Table;
		type ExternalAccount = External;
		type SeedNativeAmount = Seed;
		type WeightInfo = ();
	}
}
use rt::{Referrals, RuntimeOrigin, Wide};
/// code and number of the parachain
const CHAINS: [(&str, u32); 12] = [("MOONBEAM", 2004), ("ASSETHUB", 1000), ("INTERLAY", 2032), ("CENTRIFUGE", 2031), ("ASTAR", 2006), ("BIFROST", 2030), ("ZEITGEIST", 2092), ("PHALA", 2035), ("UNIQUE", 2037), ("NODLE", 2026), ("SUBSOCIAL", 2101), ("POLKADOT", 0)];
fn owner(n: u32) -> Acc {
	let mut a = [0u8; 32];
	if n == 0 { a[..6].copy_from_slice(b"Parent") } else { a[..4].copy_from_slice(b"sibl"); a[4..8].copy_from_slice(&n.to_le_bytes()) }
	Acc::new(a)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case { taken: Vec<(u8, Option<u8>, bool)> }
pub fn case() -> BoxedStrategy<Case> { prop::collection::vec((1u8..9, proptest::option::weighted(0.7, 0u8..12), any::<bool>()), 0..6).prop_map(|taken| Case { taken }).boxed() }
pub fn run(c: &Case, m: &mut Meter) -> Res {
	fresh(Default::default(), || {
		for (w, i, low) in &c.taken {
			let code = i.map_or(format!("CODE{w}"), |i| CHAINS[i as usize].0.to_string());
			let code = if *low { code.to_lowercase() } else { code };
			let _ = Referrals::register_code(RuntimeOrigin::signed(Acc::new([*w; 32])), code.into_bytes().try_into().unwrap());
		}
		let mut names: Vec<Vec<u8>> = CHAINS.iter().map(|x| x.0.as_bytes().to_vec()).collect();
		names.extend((1u8..9).map(|w| format!("CODE{w}").into_bytes()));
		let held = || -> BTreeMap<Vec<u8>, Acc> { names.iter().filter_map(|k| Some((k.clone(), Referrals::referral_account::<pallet_referrals::ReferralCode<ConstU32<10>>>(k.clone().try_into().unwrap())?))).collect() };
		let was = held();
		let before = state();
		let free: Vec<_> = CHAINS.iter().filter(|x| !was.contains_key(x.0.as_bytes())).collect();
		pallet_referrals::migration::preregister_parachain_codes::<Wide>();
		let mut want = was.clone();
		for (code, n) in &free { want.insert(code.as_bytes().to_vec(), owner(*n)); }
		for (code, w) in &held() { eq!("owner of a code", (String::from_utf8_lossy(code), Some(w)), (String::from_utf8_lossy(code), want.get(code))) }
		eq!("codes", held(), want);
		for (code, n) in &free {
			eq!("code of a chain", Referrals::referral_code(owner(*n)).map(|c| c.to_vec()), Some(code.as_bytes().to_vec()));
			eq!("level of a chain", Referrals::referrer_level(owner(*n)), Some((Level::default(), 0)));
		}
		let after = state();
		for (k, v) in &before { ensure_that!(after.get(k) == Some(v), "something that was registered before is gone or changed: {k:02x?}"); }
		eq!("new entries", after.len() - before.len(), 3 * free.len());
		again("codes", || { pallet_referrals::migration::preregister_parachain_codes::<Wide>(); })?;
		if free.len() < CHAINS.len() { m.nontrivial() }
		Ok(())
	})
}
