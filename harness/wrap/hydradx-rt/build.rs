//! Takes the parts of the runtime's configuration that carry logic out of `runtime/hydradx/src`.
use extract::{extract, write, Want};
const RT: &str = "/repo/runtime/hydradx/src";
fn main() {
	// what a world of real pallets needs
	write("assets.rs", &extract(&format!("{RT}/assets.rs"), &Want {
		roots: &["SUFFICIENCY_LOCK", "VestingPalletId", "ReferralsPalletId", "BondsPalletId"],
		given: &["Runtime", "RuntimeEvent", "RuntimeOrigin", "NativeAssetId", "TreasuryAccount", "TreasuryPalletId"],
		configs: &[],
		aliases: &[
			("pallet_balances::Config", "DustRemoval", "RtDust"), ("pallet_balances::Config", "ExistentialDeposit", "RtNativeEd"),
			("orml_tokens::Config", "CurrencyHooks", "RtHooks"), ("orml_tokens::Config", "DustRemovalWhitelist", "RtWhitelist"),
			("pallet_route_executor::Config", "EdToRefundCalculator", "RtRefundEd"), ("pallet_circuit_breaker::Config", "WhitelistedAccounts", "RtBreakerWhitelist"),
			("pallet_ema_oracle::Config", "OracleWhitelist", "RtOracleWhitelist"), ("pallet_stableswap::Config", "ShareAccountId", "RtStableAccount"),
			("pallet_xyk::Config", "AssetPairAccountId", "RtXykAccount"), ("pallet_lbp::Config", "AssetPairAccountId", "RtLbpAccount"),
			("pallet_referrals::Config", "LevelVolumeAndRewardPercentages", "RtLevels"), ("pallet_bonds::Config", "AssetTypeWhitelist", "RtBondKinds"),
			("pallet_referrals::Config", "PalletId", "RtReferralsId"), ("pallet_bonds::Config", "PalletId", "RtBondsId"),
			("pallet_staking::Config", "MaxPointsPerAction", "RtPoints"), ("pallet_staking::Config", "MinSlash", "RtMinSlash"),
		],
		crates: &[],
	}));
	write("governance.rs", &extract(&format!("{RT}/governance.rs"), &Want {
		roots: &["TreasuryAccount", "TreasuryPalletId"],
		given: &["Runtime"],
		configs: &[],
		aliases: &[("pallet_treasury::Config", "Paymaster", "RtPay")],
		crates: &[],
	}));
	write("system.rs", &extract(&format!("{RT}/system.rs"), &Want {
		roots: &["NativeAssetId", "ExtrinsicBaseWeight"],
		given: &["Runtime"],
		configs: &[],
		aliases: &[("pallet_transaction_payment::Config", "WeightToFee", "RtWeightToFee"), ("pallet_transaction_payment::Config", "LengthToFee", "RtLengthToFee")],
		crates: &[],
	}));
	write("lib.rs", &extract(&format!("{RT}/lib.rs"), &Want { roots: &["get_all_module_accounts"], given: &["Runtime"], configs: &[], aliases: &[], crates: &[] }));
	write("xcm.rs", &extract(&format!("{RT}/xcm.rs"), &Want {
		roots: &["EvmAddressConversion", "IsForeignNativeAssetFrom", "AssetHubLocation", "ParachainMinFee", "SelfLocation"],
		given: &["Runtime", "RuntimeOrigin", "RuntimeEvent", "RuntimeCall"],
		configs: &[],
		aliases: &[("orml_xtokens::Config", "CurrencyIdConvert", "RtConvert"), ("orml_xtokens::Config", "AccountIdToLocation", "RtAccountLocation")],
		crates: &["polkadot_xcm"],
	}));
}
