From 97824fe81c3d640d97e65917272ae47cf9d44686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 01/18] fix: log2 reports an error when the inverse of a tiny
 operand does not fit

The unwrap aborted ln, pow and LBP sells with an amount far above the reserve.
---
 math/src/transcendental.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index 8d6971e..be57262 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -77,7 +77,7 @@ where
 
 	let operand = D::from(operand);
 	if operand < D::one() {
-		let inverse = D::one().checked_div(operand).unwrap(); // Unwrap is safe because operand is always > 0
+		let inverse = D::one().checked_div(operand).ok_or(())?; // the inverse of a tiny operand may not be representable
 		return Ok((log2_inner::<D, D>(inverse), true));
 	}
 	Ok((log2_inner::<D, D>(operand), false))
-- 
2.43.0


From 87c11de30a514245edb67c63d55bfc4f4c808b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 02/18] fix: xyk reports a purchase's amounts to the trade
 handler in the right order

---
 pallets/xyk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/xyk/src/lib.rs b/pallets/xyk/src/lib.rs
index 0090e2c..caaea28 100644
--- a/pallets/xyk/src/lib.rs
+++ b/pallets/xyk/src/lib.rs
@@ -1043,8 +1043,8 @@ impl<T: Config> AMM<T::AccountId, AssetId, AssetPair, Balance> for Pallet<T> {
 			T::OracleSource::get(),
 			transfer.assets.asset_in,
 			transfer.assets.asset_out,
-			transfer.amount,
 			transfer.amount_b,
+			transfer.amount,
 			liquidity_in,
 			liquidity_out,
 			Ratio::new(liquidity_in, liquidity_out),
-- 
2.43.0


From 6071dfc215a40b2137a81d743ad18c353b7fea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:22 +0000
Subject: [PATCH 03/18] fix: omnipool withdrawal fee panicked when the prices
 differ too much to be divided

---
 math/src/omnipool/math.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index c7d6324..a453597 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -303,7 +303,11 @@ pub fn calculate_withdrawal_fee(
 		return min_fee;
 	}
 
-	price_diff.div(oracle_price).clamp(min_fee, FixedU128::one())
+	// not representable means that the prices differ so much that the fee is capped anyway
+	price_diff
+		.checked_div(&oracle_price)
+		.unwrap_or_else(FixedU128::one)
+		.clamp(min_fee, FixedU128::one())
 }
 
 /// Calculate delta changes of remove liqudiity given current asset state and position from which liquidity should be removed.
-- 
2.43.0


From e3236ec9a5030ab3ea6d8ed85886948c469a6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:00 +0000
Subject: [PATCH 04/18] fix: dynamic fee recalculation panicked when the net
 volume dwarfs the liquidity

---
 math/src/dynamic_fees/math.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/math/src/dynamic_fees/math.rs b/math/src/dynamic_fees/math.rs
index ee1354f..90e36ae 100644
--- a/math/src/dynamic_fees/math.rs
+++ b/math/src/dynamic_fees/math.rs
@@ -1,8 +1,8 @@
 use super::types::*;
 use crate::dynamic_fees::types::NetVolumeDirection::{InOut, OutIn};
 use num_traits::Zero;
-use sp_arithmetic::traits::Saturating;
-use sp_arithmetic::{FixedPointOperand, FixedU128, PerThing};
+use sp_arithmetic::traits::{Bounded, Saturating};
+use sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128, PerThing};
 
 /// Recalculate Omnipool's asset fee given previously calculated fee and oracle data.
 ///
@@ -66,7 +66,12 @@ where
 	// 2. if protocol fee, direction InOut: x = (Vi - Vo) / L
 	let (x, x_neg) = if !volume.liquidity.is_zero() {
 		let (diff, neg) = volume.net_volume(direction);
-		(FixedU128::from_rational(diff, volume.liquidity), neg)
+		// `from_rational` panics if the ratio is not representable, saturate instead
+		let x = match FixedU128::checked_from_rational(diff, volume.liquidity) {
+			Some(ratio) if ratio < FixedU128::max_value() => FixedU128::from_rational(diff, volume.liquidity),
+			_ => FixedU128::max_value(),
+		};
+		(x, neg)
 	} else {
 		(FixedU128::zero(), false)
 	};
-- 
2.43.0


From d58481babc6901ab30e9dc054192b934216aa851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 05/18] fix: staking counted votes with 5x conviction as 4x

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From 34ae1406b849ea87a565f51bb49e129bae79afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 06/18] fix: DCA schedules planned in an unsorted block could
 not be terminated

---
 pallets/dca/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/dca/src/lib.rs b/pallets/dca/src/lib.rs
index f0504ba..7c0e462 100644
--- a/pallets/dca/src/lib.rs
+++ b/pallets/dca/src/lib.rs
@@ -557,8 +557,9 @@ pub mod pallet {
 					let schedule_ids = maybe_schedule_ids.as_mut().ok_or(Error::<T>::ScheduleNotFound)?;
 
 					let index = schedule_ids
-						.binary_search(&schedule_id)
-						.map_err(|_| Error::<T>::ScheduleNotFound)?;
+						.iter()
+						.position(|id| *id == schedule_id)
+						.ok_or(Error::<T>::ScheduleNotFound)?;
 
 					schedule_ids.remove(index);
 
-- 
2.43.0


From 08f7c43db13c766e38cc49125f337c8d537adee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 07/18] fix: liquidity mining could not stop or update a farm
 whose deposits' stakes were rounded

---
 pallets/liquidity-mining/src/lib.rs | 35 ++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2197c9a..2e0fd0a 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1281,6 +1281,12 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 								.checked_sub(deposit.shares)
 								.defensive_ok_or::<Error<T, I>>(InconsistentStateError::InvalidTotalShares.into())?;
 
+							let old_stake_in_global_farm = math::calculate_global_farm_shares(
+								yield_farm.total_valued_shares,
+								yield_farm.multiplier,
+							)
+							.map_err(|_| ArithmeticError::Overflow)?;
+
 							yield_farm.total_valued_shares = yield_farm
 								.total_valued_shares
 								.checked_sub(farm_entry.valued_shares)
@@ -1290,11 +1296,18 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 							// stopped and yield farm have to be stopped before it's terminated so
 							// this update is only required for active farms.
 							if yield_farm.state.is_active() {
-								let deposit_stake_in_global_farm =
-									math::calculate_global_farm_shares(farm_entry.valued_shares, yield_farm.multiplier)
-										.map_err(|_| ArithmeticError::Overflow)?;
-
-								global_farm.remove_stake(deposit_stake_in_global_farm)?;
+								let new_stake_in_global_farm = math::calculate_global_farm_shares(
+									yield_farm.total_valued_shares,
+									yield_farm.multiplier,
+								)
+								.map_err(|_| ArithmeticError::Overflow)?;
+
+								//NOTE: stake of deposits made before the farm's stake was rounded as
+								//a whole can be lower, withdrawing must not fail because of it.
+								let stake = old_stake_in_global_farm
+									.saturating_sub(new_stake_in_global_farm)
+									.min(global_farm.total_shares_z);
+								global_farm.remove_stake(stake)?;
 							}
 
 							//NOTE: this should never happen. It's the responsibility of a pallet
@@ -1419,8 +1432,8 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						Error::<T, I>::IncorrectValuedShares
 					);
 
-					let deposit_stake_in_global_farm =
-						math::calculate_global_farm_shares(valued_shares, yield_farm.multiplier)
+					let old_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
 							.map_err(|_| ArithmeticError::Overflow)?;
 
 					yield_farm.total_shares = yield_farm
@@ -1433,7 +1446,13 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						.checked_add(valued_shares)
 						.ok_or(ArithmeticError::Overflow)?;
 
-					global_farm.add_stake(deposit_stake_in_global_farm)?;
+					//NOTE: stake of the whole yield farm is rounded, the same way as when it's updated
+					//or stopped. Sum of stakes rounded for each deposit would be different.
+					let new_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
+							.map_err(|_| ArithmeticError::Overflow)?;
+
+					global_farm.add_stake(new_stake_in_global_farm.saturating_sub(old_stake_in_global_farm))?;
 
 					let farm_entry = YieldFarmEntry::new(
 						global_farm.id,
-- 
2.43.0


From 6add97249b7029b92ee23834edbd1af7c27cfb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 08/18] fix: withdrawing from xyk liquidity mining with another
 pair paid out that pair's shares

---
 pallets/liquidity-mining/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2e0fd0a..bb55ba4 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1930,6 +1930,12 @@ impl<T: Config<I>, I: 'static> hydradx_traits::liquidity_mining::Mutate<T::Accou
 		yield_farm_id: YieldFarmId,
 		amm_pool_id: Self::AmmPoolId,
 	) -> Result<(Self::Balance, Option<(T::AssetId, Self::Balance, Self::Balance)>, bool), Self::Error> {
+		//NOTE: caller pays out LP shares of `amm_pool_id`, it must be the pool of the deposit.
+		ensure!(
+			Self::deposit(deposit_id).map_or(true, |deposit| deposit.amm_pool_id == amm_pool_id),
+			Error::<T, I>::YieldFarmNotFound
+		);
+
 		let claim_data = if Self::is_yield_farm_claimable(global_farm_id, yield_farm_id, amm_pool_id) {
 			let fail_on_doubleclaim = false;
 			let (_, reward_currency, claimed, unclaimable) =
-- 
2.43.0


From ade74c92db22d827d192f1d3af1827a4d7311854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 09/18] fix: otc-settlements: the offchain worker skips orders
 closed since its list was made

---
 pallets/otc-settlements/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/otc-settlements/src/lib.rs b/pallets/otc-settlements/src/lib.rs
index d5884e2..9d1e754 100644
--- a/pallets/otc-settlements/src/lib.rs
+++ b/pallets/otc-settlements/src/lib.rs
@@ -510,7 +510,10 @@ impl<T: Config> Pallet<T> {
 			target: "offchain_worker::settle_otcs",
 				"test OTC id {:?} ", otc_id);
 
-			let otc = <pallet_otc::Orders<T>>::get(otc_id).unwrap();
+			// the list can be older than the state, e.g. when the worker runs again for a sibling block
+			let Some(otc) = <pallet_otc::Orders<T>>::get(otc_id) else {
+				continue;
+			};
 			let route = T::Router::get_route(AssetPair {
 				asset_in: otc.asset_out,
 				asset_out: otc.asset_in,
-- 
2.43.0


From 9314ab5ef70105c7f306e36ebafa3af0be2443c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 10/18] fix: transaction-multi-payment: an oracle price out of
 range or without denominator falls back instead of panicking

---
 pallets/transaction-multi-payment/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/transaction-multi-payment/src/lib.rs b/pallets/transaction-multi-payment/src/lib.rs
index ac2d0ca..4a9bcf5 100644
--- a/pallets/transaction-multi-payment/src/lib.rs
+++ b/pallets/transaction-multi-payment/src/lib.rs
@@ -562,7 +562,7 @@ impl<T: Config> Pallet<T> {
 		let on_chain_route = T::RouteProvider::get_route(AssetPair::new(asset_id, native_asset));
 
 		T::OraclePriceProvider::price(&on_chain_route, OraclePeriod::Short)
-			.map(|ratio| FixedU128::from_rational(ratio.n, ratio.d))
+			.and_then(|ratio| FixedU128::checked_from_rational(ratio.n, ratio.d))
 	}
 }
 
-- 
2.43.0


From fd734e44eecd87d9fc1de4ea9638d0595b8d5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 11/18] fix: transaction-multi-payment: a refund that cannot be
 made stays with the fee instead of invalidating an executed transaction

---
 pallets/transaction-multi-payment/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pallets/transaction-multi-payment/src/lib.rs b/pallets/transaction-multi-payment/src/lib.rs
index 4a9bcf5..5bbe90b 100644
--- a/pallets/transaction-multi-payment/src/lib.rs
+++ b/pallets/transaction-multi-payment/src/lib.rs
@@ -692,12 +692,16 @@ where
 				}
 			};
 
-			// refund to the account that paid the fees
-			MC::deposit(currency, who, refund)
-				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
+			// refund to the account that paid the fees. If this fails, the account was emptied and the refund alone
+			// is below the existential deposit. In that case we don't refund anything.
+			let not_refunded = if MC::deposit(currency, who, refund).is_ok() {
+				Zero::zero()
+			} else {
+				refund
+			};
 
 			// deposit the fee
-			DF::deposit_fee(&fee_receiver, currency, fee + tip)
+			DF::deposit_fee(&fee_receiver, currency, fee + tip + not_refunded)
 				.map_err(|_| TransactionValidityError::Invalid(InvalidTransaction::Payment))?;
 		}
 
-- 
2.43.0


From 7710dac94144d59a2a4deb1b4f71bf36c5b1c3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 12/18] fix: xyk spot price with fee reports overflow instead
 of panicking

---
 math/src/xyk/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/xyk/math.rs b/math/src/xyk/math.rs
index 2542c0e..95a8894 100644
--- a/math/src/xyk/math.rs
+++ b/math/src/xyk/math.rs
@@ -53,7 +53,7 @@ pub fn calculate_spot_price_with_fee(
 ) -> Result<FixedU128, MathError> {
 	ensure!(in_reserve != 0, ZeroReserve);
 
-	let spot_price_without_fee = FixedU128::from_rational(out_reserve, in_reserve);
+	let spot_price_without_fee = FixedU128::checked_from_rational(out_reserve, in_reserve).ok_or(Overflow)?;
 
 	if let Some((n, d)) = fee_rate {
 		// Formula: spot-price-with-fee = BA-spot-price-without-fee * (1 - fee)
-- 
2.43.0


From 25221f2a86d5fabd53998e580cc7508c20781ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 13/18] fix: contracts can be called with DELEGATECALL, only
 the custom precompiles refuse it; call permit is a precompile

---
 runtime/hydradx/src/evm/precompiles/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/hydradx/src/evm/precompiles/mod.rs b/runtime/hydradx/src/evm/precompiles/mod.rs
index 2097fe8..7c589cb 100644
--- a/runtime/hydradx/src/evm/precompiles/mod.rs
+++ b/runtime/hydradx/src/evm/precompiles/mod.rs
@@ -102,6 +102,13 @@ fn is_standard_precompile(address: H160) -> bool {
 	!address.is_zero() && address <= ETH_PRECOMPILE_END
 }
 
+fn is_precompile(address: H160) -> bool {
+	address == DISPATCH_ADDR
+		|| address == CALLPERMIT
+		|| is_asset_address(address)
+		|| is_standard_precompile(address)
+}
+
 impl<R> PrecompileSet for HydraDXPrecompiles<R>
 where
 	R: pallet_evm::Config + pallet_currencies::Config,
@@ -114,7 +121,7 @@ where
 		let address = handle.code_address();
 
 		// Filter known precompile addresses except Ethereum officials
-		if address > ETH_PRECOMPILE_END && context.address != address {
+		if is_precompile(address) && !is_standard_precompile(address) && context.address != address {
 			return Some(Err(PrecompileFailure::Revert {
 				exit_status: ExitRevert::Reverted,
 				output: "cannot be called with DELEGATECALL or CALLCODE".into(),
@@ -153,9 +160,8 @@ where
 	}
 
 	fn is_precompile(&self, address: H160, _remaining_gas: u64) -> IsPrecompileResult {
-		let is_precompile = address == DISPATCH_ADDR || is_asset_address(address) || is_standard_precompile(address);
 		IsPrecompileResult::Answer {
-			is_precompile,
+			is_precompile: is_precompile(address),
 			extra_cost: 0,
 		}
 	}
-- 
2.43.0


From 33a3cb07235b48493042e77054f696c3285cea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 14/18] fix: arguments with a dynamic part can be decoded,
 their tuple's offset points at them

---
 precompiles/utils/src/solidity/codec/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/precompiles/utils/src/solidity/codec/mod.rs b/precompiles/utils/src/solidity/codec/mod.rs
index 6ab27ee..5349ef0 100644
--- a/precompiles/utils/src/solidity/codec/mod.rs
+++ b/precompiles/utils/src/solidity/codec/mod.rs
@@ -86,10 +86,8 @@ fn decode<T: Codec>(input: &[u8]) -> MayRevert<T> {
 /// It matches the encoding of Solidity function arguments and return value, or event data.
 pub fn decode_arguments<T: Codec>(input: &[u8]) -> MayRevert<T> {
 	if T::is_explicit_tuple() && !T::has_static_size() {
-		let writer = Writer::new();
-		let mut writer = writer.write(U256::from(32));
-		writer.write_pointer(input.to_vec());
-		let input = writer.build();
+		// the offset of the tuple, which arguments are encoded without
+		let input = Writer::new().write(U256::from(32)).write_raw_bytes(input).build();
 		decode(&input)
 	} else {
 		decode(&input)
-- 
2.43.0


From 05b815dd23ba8ddca6a01973a9af10bf5658b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 15/18] fix: a permit is used up before its call is made, so
 the call cannot use its nonce again

---
 runtime/hydradx/src/evm/permit.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/hydradx/src/evm/permit.rs b/runtime/hydradx/src/evm/permit.rs
index bce5449..c30f38f 100644
--- a/runtime/hydradx/src/evm/permit.rs
+++ b/runtime/hydradx/src/evm/permit.rs
@@ -95,6 +95,10 @@ where
 		let account_id = <R as pallet_evm::Config>::AddressMapping::into_account_id(source);
 		let source_nonce = frame_system::Account::<R>::get(&account_id).nonce;
 
+		// The permit is used up before the call is made, so that nothing the call does can make use of its nonce again.
+		let permit_nonce = NoncesStorage::get(source);
+		NoncesStorage::insert(source, permit_nonce + U256::one());
+
 		let is_transactional = true;
 		let validate = true;
 		let info = match <R as pallet_evm::Config>::Runner::call(
@@ -115,6 +119,8 @@ where
 		) {
 			Ok(info) => info,
 			Err(e) => {
+				// The call was not made.
+				NoncesStorage::insert(source, permit_nonce);
 				return Err(DispatchErrorWithPostInfo {
 					post_info: PostDispatchInfo {
 						actual_weight: Some(e.weight),
@@ -131,9 +137,6 @@ where
 		);
 		frame_system::Account::<R>::mutate(account_id, |a| a.nonce -= <R as frame_system::Config>::Nonce::one());
 
-		let permit_nonce = NoncesStorage::get(source);
-		NoncesStorage::insert(source, permit_nonce + U256::one());
-
 		let mut gas_to_weight = <R as pallet_evm::Config>::GasWeightMapping::gas_to_weight(
 			info.used_gas.standard.unique_saturated_into(),
 			true,
-- 
2.43.0


From 0b0592677fbbe71ce21a7187b748db94aedbbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 16/18] fix: a refused dust transfer leaves nothing behind,
 also not what the currency hooks charged for it

---
 pallets/duster/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/duster/src/lib.rs b/pallets/duster/src/lib.rs
index a832fb0..3882da7 100644
--- a/pallets/duster/src/lib.rs
+++ b/pallets/duster/src/lib.rs
@@ -313,7 +313,10 @@ pub struct DusterWhitelist<T>(PhantomData<T>);
 impl<T: Config> OnDust<T::AccountId, T::CurrencyId, T::Balance> for Pallet<T> {
 	fn on_dust(who: &T::AccountId, currency_id: T::CurrencyId, amount: T::Balance) {
 		if let Some(dust_dest_account) = Self::dust_dest_account() {
-			let _ = Self::transfer_dust(who, &dust_dest_account, currency_id, amount);
+			// A refused transfer is ignored and must not leave anything behind, e.g. what currency hooks charged for it.
+			let _ = frame_support::storage::with_storage_layer(|| {
+				Self::transfer_dust(who, &dust_dest_account, currency_id, amount)
+			});
 		}
 	}
 }
-- 
2.43.0


From 9ee08f42c77db19f621981893e8226e48871ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 17/18] fix: native dust received by the treasury is not also
 taken from the total issuance

---
 runtime/hydradx/src/assets.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/hydradx/src/assets.rs b/runtime/hydradx/src/assets.rs
index d417620..3fd8a81 100644
--- a/runtime/hydradx/src/assets.rs
+++ b/runtime/hydradx/src/assets.rs
@@ -84,6 +84,9 @@ pub struct DustRemovalAdapter;
 impl OnUnbalanced<CreditOf> for DustRemovalAdapter {
 	fn on_nonzero_unbalanced(amount: CreditOf) {
 		let new_amount = NegativeImbalance::new(amount.peek());
+		// `new_amount` takes over from the credit. Dropping the credit as well would reduce the total issuance by the
+		// dust that treasury received.
+		core::mem::forget(amount);
 		Treasury::on_nonzero_unbalanced(new_amount);
 	}
 }
-- 
2.43.0


From f1e15d4fb94752f094f4b5f5ac11eda657fc5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 18/18] fix: a first deposit of a fee currency to the treasury
 does not charge its existential deposit in itself without end

---
 runtime/hydradx/src/assets.rs | 37 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/runtime/hydradx/src/assets.rs b/runtime/hydradx/src/assets.rs
index 3fd8a81..81c7bbf 100644
--- a/runtime/hydradx/src/assets.rs
+++ b/runtime/hydradx/src/assets.rs
@@ -181,14 +181,19 @@ impl SufficiencyCheck {
 				.saturating_mul_int(InsufficientEDinHDX::get())
 				.max(1);
 
-			//NOTE: Account doesn't have enough funds to pay ED if this fail.
-			<Currencies as MultiCurrency<AccountId>>::transfer(
-				fee_payment_asset,
-				paying_account,
-				&TreasuryAccount::get(),
-				ed_in_fee_asset,
-			)
-			.map_err(|_| orml_tokens::Error::<Runtime>::ExistentialDeposit)?;
+			//NOTE: Treasury's ED in the asset it is being paid with is not charged. The payment would be a transfer of
+			//the same asset to the treasury that still doesn't hold it, which would require this payment again.
+			let is_charged = asset != fee_payment_asset || *to != TreasuryAccount::get();
+			if is_charged {
+				//NOTE: Account doesn't have enough funds to pay ED if this fail.
+				<Currencies as MultiCurrency<AccountId>>::transfer(
+					fee_payment_asset,
+					paying_account,
+					&TreasuryAccount::get(),
+					ed_in_fee_asset,
+				)
+				.map_err(|_| orml_tokens::Error::<Runtime>::ExistentialDeposit)?;
+			}
 
 			//NOTE: we are locking little bit less than charging.
 			let to_lock = pallet_balances::Locks::<Runtime>::get(TreasuryAccount::get())
@@ -209,13 +214,15 @@ impl SufficiencyCheck {
 
 			pallet_asset_registry::ExistentialDepositCounter::<Runtime>::mutate(|v| *v = v.saturating_add(1));
 
-			pallet_asset_registry::Pallet::<Runtime>::deposit_event(
-				pallet_asset_registry::Event::<Runtime>::ExistentialDepositPaid {
-					who: paying_account.clone(),
-					fee_asset: fee_payment_asset,
-					amount: ed_in_fee_asset,
-				},
-			);
+			if is_charged {
+				pallet_asset_registry::Pallet::<Runtime>::deposit_event(
+					pallet_asset_registry::Event::<Runtime>::ExistentialDepositPaid {
+						who: paying_account.clone(),
+						fee_asset: fee_payment_asset,
+						amount: ed_in_fee_asset,
+					},
+				);
+			}
 		}
 
 		Ok(())
-- 
2.43.0

