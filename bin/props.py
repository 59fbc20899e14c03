"""The properties. `gen_meta.py` turns this into properties.jsonl and MANIFEST.json."""
PBT = "property-based testing (generated inputs, exact big-integer reference, shrinking)"
STATEFUL = "stateful property-based testing (generated operation histories against a reference model, shrinking)"
NOTE = "Random exploration with boundary-weighted generators; every case is decided by an independent exact reference or an invariant. Trusts the reference, the stand-ins for crates that are not available here (see DESIGN.md) and rustc 1.75."
PROPS = []
def prop(id, title, statement, over, quant, why, files, mech, technique=PBT, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, na=na))

prop("C01", "Omnipool trades never lose value and match the pricing curve",
     "For every state of two assets in the single-hub pool, every trade amount and every pair of asset and protocol fees, selling, buying and trading with the hub asset return the amounts of the constant-product curve rounded in favour of the pool: no asset's product of reserve and hub reserve shrinks, fees are charged in full and accounted exactly, and the recorded changes of reserves, hub reserves and imbalance add up. Selling and immediately selling the proceeds back never returns more than was paid in. A larger sale never yields less and a larger purchase never costs less.",
     ["inputs", "histories"], "all reserves, shares, amounts and fees over the full balance range, and trade sequences",
     "The unit tests check a dozen states each; the claim is about every reserve, amount and fee, where rounding direction and overflow matter.",
     ["math/src/omnipool/math.rs", "math/src/omnipool/types.rs"],
     [("sell/buy/hub trade state changes", "math/src/omnipool/math.rs calculate_sell_state_changes, calculate_buy_state_changes, calculate_sell_hub_state_changes, calculate_buy_for_hub_asset_state_changes")])
prop("C02", "Omnipool liquidity: shares are proportional, withdrawals never overpay",
     "Adding liquidity to the hub pool mints shares in proportion and keeps the asset's price; removing a position pays at most its proportional part of reserve and hub reserve, takes the impermanent-loss adjustment from the position's opening price and deducts the withdrawal fee within its bounds. Adding liquidity and removing it at once never yields a profit or dilutes the other providers. All recorded changes of reserves, shares, protocol shares and imbalance match the exact amounts.",
     ["inputs", "histories"], "all asset states, positions, prices, amounts and withdrawal fees over the full balance range",
     "Tests use a few hand-made positions; price moves in both directions combined with rounding at any magnitude are out of their reach.",
     ["math/src/omnipool/math.rs"],
     [("liquidity state changes", "math/src/omnipool/math.rs calculate_add_liquidity_state_changes, calculate_remove_liquidity_state_changes"), ("withdrawal fee", "math/src/omnipool/math.rs calculate_withdrawal_fee")])
prop("C03", "Omnipool quoted prices, caps and balance changes are exact",
     "The quoted spot price of any asset pair, with or without fees, equals the exact ratio of the pool's reserves and no executed trade is better than the quote. Weight-cap and total-value-cap checks admit liquidity exactly up to the cap. Signed balance changes add, subtract and apply like integers, and report overflow instead of wrapping. Positions, shares and reserves converted into a subpool are exact quotients.",
     ["inputs"], "all asset states, caps, fees, prices and signed balance changes",
     "Cap boundaries and signed arithmetic have many sign and overflow combinations that a handful of cases does not touch.",
     ["math/src/omnipool/math.rs", "math/src/omnipool/types.rs"],
     [("spot price", "math/src/omnipool/math.rs calculate_spot_price, calculate_lrna_spot_price"), ("caps", "math/src/omnipool/math.rs calculate_cap_difference, calculate_tvl_cap_difference, verify_asset_cap"), ("balance updates", "math/src/omnipool/types.rs BalanceUpdate"), ("subpools", "math/src/omnipool_subpools/math.rs")])
prop("C04", "Stable pool trades keep the curve invariant",
     "For every pool of two to five assets with any decimals, amplification, fee and reserves, the computed invariant satisfies the curve equation, and every sale or purchase leaves the pool with at least the invariant it had, up to the documented unit rounding in the pool's favour and never more than that. Selling and selling the proceeds back never returns more than was paid. Invalid assets or empty reserves are refused without a value and without a panic.",
     ["inputs", "histories"], "all pools of 2 to 5 assets, decimals 0..18+, amplification 1..=10000+, reserves from dust to very large, and trades",
     "Newton iterations converge differently for extreme imbalance and amplification; the unit tests sample mild pools only.",
     ["math/src/stableswap/math.rs"],
     [("D and y iteration", "math/src/stableswap/math.rs calculate_d, calculate_y, calculate_y_internal"), ("trades", "math/src/stableswap/math.rs calculate_out_given_in, calculate_in_given_out")])
prop("C05", "Stable pool shares never lose value",
     "Adding any combination of assets mints at most the shares that the growth of the pool's invariant is worth after the imbalance fee; withdrawing shares to one asset, withdrawing an exact amount, and pricing an exact number of shares all round against the user. Over any history of adds, withdrawals and trades by anyone, the value of one share never falls, and the result is within the documented rounding of the exact amount.",
     ["inputs", "histories"], "all pools, liquidity changes and histories of operations",
     "Value per share is an invariant over histories; tests run single operations on a few pools.",
     ["math/src/stableswap/math.rs"],
     [("share issuance", "math/src/stableswap/math.rs calculate_shares, calculate_shares_for_amount, calculate_add_one_asset"), ("withdrawal", "math/src/stableswap/math.rs calculate_withdraw_one_asset")])
prop("C06", "Stable pool amplification ramps and prices are exact",
     "During an amplification change the effective value at every block lies on the straight line between its start and end, stays within them, and is the final value afterwards. Quoted spot prices between pool assets and the price of a share equal the exact slope of the pool's curve within the documented precision, with the fee applied on the right side, and no trade is better than the quote.",
     ["inputs"], "all ramps and blocks; all pools, asset pairs and fees",
     "A price is a claim on the slope of a curve for every state; tests compare single numbers.",
     ["math/src/stableswap/math.rs"],
     [("ramp", "math/src/stableswap/math.rs calculate_amplification"), ("prices", "math/src/stableswap/math.rs calculate_spot_price, calculate_share_price, calculate_spot_price_between_two_stable_assets")])
prop("C07", "Constant-product pool trades and liquidity round for the pool",
     "In the isolated two-asset pools every sale pays at most and every purchase charges at least the exact constant-product amount, within one unit of it, and the product of the reserves never falls. Shares for added liquidity and payouts for removed liquidity are proportional and rounded against the user; adding and removing at once never profits. Trade fees are the exact fraction rounded as specified, for every rate and amount.",
     ["inputs", "histories"], "all reserves, amounts, shares and fee rates over the full balance range",
     "Rounding direction at every magnitude and refusal on overflow cannot be covered by examples.",
     ["math/src/xyk/mod.rs", "math/src/fee.rs"],
     [("trades and liquidity", "math/src/xyk/mod.rs"), ("fee", "math/src/fee.rs calculate_pool_trade_fee")])
prop("C08", "Bootstrapping pool weights and weighted trades are exact and safe",
     "The weight of an asset at each block of a liquidity bootstrapping sale lies on the straight line from initial to final weight. Every sale or purchase at any weights is within the documented tolerance of the exact weighted-product formula, errors never favour the trader beyond that tolerance, and an impossible or out-of-range trade is refused rather than aborting. Selling and selling back gains nothing beyond the tolerance.",
     ["inputs", "histories"], "all reserves, amounts, weights and blocks",
     "Errors of the power function depend on the bits of ratio and exponent; the tests sample a table.",
     ["math/src/lbp/lbp.rs", "math/src/transcendental.rs"],
     [("weights", "math/src/lbp/lbp.rs calculate_linear_weights"), ("trades", "math/src/lbp/lbp.rs calculate_out_given_in, calculate_in_given_out")])
prop("C09", "Fixed-point power, exponential and logarithm are accurate and total",
     "For every operand and exponent that the fixed-point format can hold, powers, integer powers, exponential and logarithm either return the exact value within their documented accuracy or report failure; they never abort or return a value that is off by more. Large integer powers of smoothing complements stay within one unit per step of the exact power.",
     ["inputs"], "all fixed-point operands and exponents",
     "The existing accuracy tables list a few thousand pairs in the mild range; bit-level shifts and inverses fail at the ends.",
     ["math/src/transcendental.rs"],
     [("functions", "math/src/transcendental.rs pow, powi, exp, ln, log2, saturating_powi_high_precision")])
prop("C10", "Selectors and hashes generated at compile time equal Keccak-256",
     "For every text, the hash and the four-byte function selector, whether computed at run time or expanded by a macro at compile time, equal Keccak-256 of that text however its literal is spelled, and each generated selector is attached to the variant it was written for. The generated mapping from contract address to precompile name answers exactly the listed addresses and nothing else.",
     ["inputs", "programs"], "all texts and literal spellings; all generated enumerations and precompile lists",
     "The tests expand a handful of constants; the macros are programs over programs.",
     ["runtime/hydradx/src/evm/evm-utility/src/lib.rs", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs", "precompiles/utils/macro/src/lib.rs", "precompiles/utils/macro/src/precompile_name_from_address.rs"],
     [("hash", "runtime/hydradx/src/evm/evm-utility/src/lib.rs sha3_256, get_function_selector"), ("macros", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs, precompiles/utils/macro/src/lib.rs")],
     technique="property-based testing of generated programs (compiled with the real macros, observed output against an independent Keccak-256)")
prop("C11", "Oracle moving averages are exact weighted means, also over skipped blocks",
     "Integrating a new value into the moving average gives the exact weighted mean of old and new price, volume and liquidity, rounded towards the old value, within the precision of the representation, and never outside of the two. Catching up any number of blocks in one step equals the mean under the compounded weight, and agrees with updating block by block up to one unit per step. Smoothing factors and fractions convert exactly within half a unit.",
     ["inputs", "histories"], "all prices, balances, weights and numbers of skipped blocks",
     "Precision of 128-bit rationals after hundreds of thousands of compounded steps is not reachable by examples.",
     ["math/src/ema/math.rs", "math/src/fraction.rs", "math/src/transcendental.rs"],
     [("averages", "math/src/ema/math.rs"), ("fractions", "math/src/fraction.rs")])
prop("C12", "Rational rounding is directed and rationals are ordered exactly",
     "Reducing a wide rational to 128-bit parts keeps small values exactly, uses the full precision, and rounds the whole number down or up as asked. Comparing two rationals gives the exact mathematical order. Assets and positions migrated into a sub-pool keep their exact proportional amounts, shares and price.",
     ["inputs"], "all 256-bit and 512-bit numerators and denominators; all rational pairs; all migrations",
     "The unit tests try four extreme inputs; direction of rounding depends on the low bits of both parts.",
     ["math/src/support/rational.rs", "math/src/ratio.rs", "math/src/omnipool_subpools/math.rs"],
     [("rounding", "math/src/support/rational.rs round_to_rational, round_u512_to_rational"), ("order", "math/src/ratio.rs"), ("migration", "math/src/omnipool_subpools/math.rs")])
prop("C13", "Liquidity mining rewards are bounded and fully accounted",
     "The rewards of a period never exceed the configured maximum, a yield farm never takes more than its share, and what a user claims plus what is forfeited is exactly what accrued, with the loyalty multiplier between its initial value and one and rising with time. Accumulators and shares equal their exact formulas and overflow is reported.",
     ["inputs", "histories"], "all stakes, rates, periods, multipliers and loyalty curves",
     "Accounting identities must hold for all magnitudes; tests replay fixed scenarios.",
     ["math/src/liquidity_mining/liquidity_mining.rs"],
     [("rewards", "math/src/liquidity_mining/liquidity_mining.rs")])
prop("C14", "Staking points, slashing and payout curves are exact and bounded",
     "Points slashed when a stake grows are never more than the points held; points, reward accumulators and payouts equal their exact formulas; the payout curve lies in [0,1), is monotone and equals its sigmoid formula, so a claim never pays more than the rewards accrued. Overflow is reported, never wrapped.",
     ["inputs"], "all stakes, points, weights, blocks and curve parameters",
     "The tests sample a few stake sizes and points.",
     ["math/src/staking/math.rs"],
     [("points and payouts", "math/src/staking/math.rs")])
prop("C15", "Dynamic fees stay in bounds and deferral limits are exact",
     "Recalculated asset and protocol fees follow the exact formula of volume imbalance, decay and amplification, and always stay within the configured minimum and maximum; without volume they decay to the minimum. The inbound transfer limiter accumulates, decays and defers exactly in proportion to the configured limit and duration.",
     ["inputs", "histories"], "all volumes, liquidities, fee parameters, block distances, transfer amounts and limits",
     "Feedback formulas with saturation at both ends need every combination of signs and magnitudes.",
     ["math/src/dynamic_fees/math.rs", "math/src/rate_limiter/math.rs"],
     [("fees", "math/src/dynamic_fees/math.rs recalculate_asset_fee, recalculate_protocol_fee"), ("limiter", "math/src/rate_limiter/math.rs calculate_deferred_duration, calculate_new_accumulated_amount")])
prop("C16", "Build metadata: watched git files and version string",
     "For a package anywhere inside a repository or worktree whose head is on a branch, the build watches exactly that head file and the branch it names; a detached head or a missing repository never makes the build watch a file that does not exist. The version string names the release, commit, the version of the runtime package as recorded in the lock file, the node version and the platform.",
     ["configurations", "inputs"], "all directory layouts, head contents, worktrees, lock files and package names",
     "There are no tests of these helpers; layouts vary per checkout.",
     ["utils/build-script-utils/src/git.rs", "utils/build-script-utils/src/version.rs"],
     [("git head", "utils/build-script-utils/src/git.rs rerun_if_git_head_changed"), ("version", "utils/build-script-utils/src/version.rs generate_cargo_keys")],
     technique="property-based testing (generated directory layouts and lock files, real helper run in a scratch directory)")
prop("C17", "Isolated pools account exactly for every unit, share, fee and event",
     "Over any history of creating pools, adding and removing liquidity, selling, buying (with or without the native-asset discount), donating and moving shares, every balance, share count, pool registration, event and activity report of the isolated two-asset pools equals the exact specification: trades and liquidity move exactly the computed amounts between user and pool, the fee stays in the pool, a discounted trade burns exactly the native cost, shares are minted and burnt one for one with the recorded total, a pool is removed exactly when its last share is redeemed, and every limit (minimum amounts, in/out ratios, slippage, minimum liquidity, permission to create) is enforced exactly at its boundary. A refused call changes nothing. No operation lowers the value behind a share, and selling back the proceeds never gains.",
     ["histories", "inputs"], "all histories of pool operations by several users on several pools, all amounts, limits, fees and pool limits",
     "Accounting across operations, users, pools and order of assets is a claim about histories; the tests run short scripted ones with one configuration.",
     ["pallets/xyk/src/lib.rs", "pallets/xyk/src/trade_execution.rs", "pallets/xyk/src/types.rs"],
     [("pool life cycle and trades", "pallets/xyk/src/lib.rs create_pool, add_liquidity, remove_liquidity, validate_sell, execute_sell, validate_buy, execute_buy")], technique=STATEFUL)
prop("C18", "Stable pool accounts exactly for every unit, share, fee and event",
     "Over any history of creating pools, adding liquidity (any set of assets, or for an exact number of shares), withdrawing (one asset, an exact amount), selling and buying between pool assets, changing fees, amplification ramps and tradability, donations and passing blocks, every balance, share issuance, pool parameter, event and activity report of the stable pools equals the exact specification: the computed amounts and nothing else move between user and pool, the pool's current amplification and fee are the ones in force at that block, shares are minted and burnt with liquidity only, and every limit (slippage, minimum trade, minimum liquidity, tradability flags, asset membership, ramp length and range, authority) is enforced exactly at its boundary. A refused or failing operation, also one refused by a hook, changes nothing. Quotes given to the router are what is executed.",
     ["histories", "inputs"], "all histories of pool operations by several users on several pools, all amounts, limits, fees, decimals, ramps and blocks",
     "Accounting across operations, users, pools and amplification ramps is a claim about histories; the tests run short scripted ones.",
     ["pallets/stableswap/src/lib.rs", "pallets/stableswap/src/trade_execution.rs", "pallets/stableswap/src/types.rs"],
     [("liquidity and trades", "pallets/stableswap/src/lib.rs add_liquidity, add_liquidity_shares, remove_liquidity_one_asset, withdraw_asset_amount, sell, buy, update_amplification"), ("router interface", "pallets/stableswap/src/trade_execution.rs")], technique=STATEFUL)
prop("C19", "Hub pool accounts exactly for positions, hub asset, fees and events",
     "Over any history of listing and removing tokens, adding and removing liquidity, giving positions away or up, trading any pair or the hub asset (directly or through the router), withdrawing protocol liquidity, refunds, tradability, cap and oracle changes, every balance, reserve, share count, position and its owner, imbalance, event and report to the hooks of the single-hub pool equals the exact specification. The hub asset held is always the sum of the recorded hub reserves; an asset's shares are always its positions plus the protocol's; a fee taker gets no more than the fee and cannot lie about it; no trade lowers an asset's product of reserve and hub reserve. Every limit (slippage, trade size, in/out ratio, price barrier, cap, minimum liquidity, tradability flags, ownership, authority) is enforced exactly at its boundary. A refused or failing operation changes nothing. Quotes given to the router are what is executed.",
     ["histories", "inputs"], "all histories of operations by several users on several assets, all amounts, limits, fees, oracle prices and pool limits",
     "Bookkeeping over users, positions, assets and the hub asset is a claim about histories; the tests run short scripted ones.",
     ["pallets/omnipool/src/lib.rs", "pallets/omnipool/src/types.rs", "pallets/omnipool/src/traits.rs", "pallets/omnipool/src/router_execution.rs"],
     [("liquidity and trades", "pallets/omnipool/src/lib.rs add_token, add_liquidity_with_limit, remove_liquidity_with_limit, sacrifice_position, sell, buy, sell_hub_asset, buy_asset_for_hub_asset, withdraw_protocol_liquidity, process_trade_fee"), ("price barrier", "pallets/omnipool/src/traits.rs EnsurePriceWithin")], technique=STATEFUL)
prop("C20", "Bootstrapping pool sales follow their schedule, fees and limits exactly",
     "Over any history of creating, updating, ending and trading liquidity bootstrapping sales, every balance, lock, pool record, fee collector assignment, event and activity report equals the exact specification. A pool is created only by the permitted authority, one per pair, with weights from 2% to below 100%, a fee with non-zero denominator and a fee collector not already collecting the same asset elsewhere; only its owner may change it and only before the sale starts, to a schedule that lies in the future, runs forward and lasts less than two weeks. Trades happen only while the sale runs, at weights interpolated linearly between the initial and final ones and at the pool's real balances; their fee is always in the accumulated (first) asset, at the repayment rate until the repayment target is collected and at the configured rate afterwards, borne by the trader when the asset goes in and out of the proceeds when it comes out, and is locked at the collector until the pool is removed. Liquidity is only removed by the owner and only when the sale is not running, in full; every limit (minimum trade, in/out ratios, slippage) is enforced exactly. A refused call changes nothing; quotes given to the router are what is executed.",
     ["histories", "inputs"], "all histories of pool and trade operations by several users on several sales, all schedules, weights, fees, targets, amounts and blocks",
     "Interaction of schedule, repayment target and fees over a sale is a claim about histories; tests run short scripted ones.",
     ["pallets/lbp/src/lib.rs", "pallets/lbp/src/types.rs", "pallets/lbp/src/trade_execution.rs"],
     [("sale life cycle and trades", "pallets/lbp/src/lib.rs create_pool, update_pool_data, add_liquidity, remove_liquidity, execute_trade, execute_sell, execute_buy, calculate_weights, calculate_fees")], technique=STATEFUL)
prop("C21", "Routed trades are all or nothing, exact per hop, and stored routes only improve",
     "A sale or purchase along a route of up to five hops over any of the venues executes hop by hop exactly the amounts quoted, moves exactly those amounts, gives at least the minimum or takes at most the maximum (exactly at the boundary), and is all or nothing, including when any venue fails or misreports. A route must start and end at the traded assets and be connected; without one the stored route or the default venue is used. Stored routes are kept once per unordered pair and used inverted for the opposite direction; a stored route is replaced only by one that works both ways and is better both ways (or when the stored one no longer works), never for assets needing a deposit payment, and by force only by the privileged origin. Trying a route leaves no trace. Route weights and oracle prices are the combination of the hops'.",
     ["histories", "inputs", "faults"], "all routes, venues, venue prices and failures, amounts, limits and histories of stored routes",
     "Behaviour over arbitrary compositions of venues, some failing or lying, is beyond scripted examples.",
     ["pallets/route-executor/src/lib.rs", "traits/src/router.rs"],
     [("execution", "pallets/route-executor/src/lib.rs sell, buy, sell_all, do_sell, calculate_sell_trade_amounts, calculate_buy_trade_amounts"), ("stored routes", "pallets/route-executor/src/lib.rs set_route, force_insert_route, validate_route")], technique=STATEFUL)
prop("C22", "Over-the-counter orders hold exactly what they offer and fill pro rata",
     "Over any history of placing, filling, partly filling and cancelling orders, the amount held back from each maker is exactly what the maker's open orders still offer, apart from anything held back for other reasons; a full fill exchanges exactly the remaining amounts, a partial fill (only where allowed) exchanges the given amount for its pro-rata share rounded down, so the maker's price never gets worse, and only if both remainders are at least the minimum; only the owner can cancel and gets back exactly the rest. Order numbers are never reused. Minimum sizes and registration are enforced exactly; a refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs"], "all histories of orders by several users over several assets, all amounts, minimums and foreign reserves",
     "Pro-rata rounding and reserve accounting over many orders of one maker is a claim about histories.",
     ["pallets/otc/src/lib.rs"], [("orders", "pallets/otc/src/lib.rs place_order, partial_fill_order, fill_order, cancel_order, execute_order")], technique=STATEFUL)
prop("C23", "Bonds are fully backed and redeemable one for one after maturity only",
     "Over any history of issuing, moving and redeeming bonds, the bonds outstanding for an asset over all maturities are exactly backed by what the pallet holds of it; issuing takes the amount from the issuer, sends the protocol fee (rounded up) to the fee receiver and gives the rest in bonds one for one; one bond asset exists per underlying asset and maturity, registered with the underlying's existential deposit and a name from which the underlying can be read, and new ones only for maturities not in the past; anyone redeems any part one for one, but only once matured. Only permitted issuers and kinds of assets are accepted; a refused or failing call changes nothing.",
     ["histories", "inputs", "faults"], "all histories of issues and redemptions by several users over several assets and maturities, all amounts, fees and times",
     "Backing over many assets, maturities and bonds of bonds is a claim about histories.",
     ["pallets/bonds/src/lib.rs"], [("issue and redeem", "pallets/bonds/src/lib.rs issue, redeem, bond_name, parse_bond_name")], technique=STATEFUL)
prop("C24", "The on-chain oracle gives the exact moving average per source, pair and period",
     "Over any history of trades and liquidity changes on any pairs and sources, the oracle values read for every pair, in both directions, and every period are exactly the moving averages of the last price, the summed volume in each direction and the last liquidity of each block, with the smoothing factor 2/(blocks of the period + 1), as of the parent block (never including the current block), also after any number of blocks without activity; their age counts from the first record. Only tracked pairs are recorded; removing a pair forgets it, including what the current block collected. At most the configured number of pairs is collected per block and further ones are refused with nothing recorded. Reading in the opposite direction gives inverted price and exchanged volumes and liquidities.",
     ["histories", "inputs"], "all histories of activity over pairs, sources, blocks and gaps; all sets of supported periods and initial data",
     "Lazy updating over gaps of different length per period is a claim about histories.",
     ["pallets/ema-oracle/src/lib.rs", "pallets/ema-oracle/src/types.rs", "traits/src/oracle.rs"], [("recording and reading", "pallets/ema-oracle/src/lib.rs on_entry, update_oracles_from_accumulator, update_oracle, get_updated_entry")], technique=STATEFUL)
prop("C25", "Circuit breaker bounds net trades and liquidity changes per block",
     "Within one block the net volume of each asset other than the hub asset traded in or out, and the liquidity added to and removed from it by accounts that are not exempt, never exceed the configured fraction of the reserve that was there at the first touch in that block (reaching it exactly is allowed); volumes in opposite directions offset each other, root and exempt accounts are not limited nor counted, and everything starts afresh in the next block. A stopped operation counts nothing. Limits can only be changed by the authority, to fractions with both parts from 1 to 10000, never for the hub asset, and removing the limit on liquidity lifts it.",
     ["histories", "inputs"], "all histories of trades, liquidity changes and limit changes over several assets and blocks; all amounts, reserves and limits",
     "Whether the bound holds depends on everything that happened before in the block.",
     ["pallets/circuit-breaker/src/lib.rs"], [("limits", "pallets/circuit-breaker/src/lib.rs ensure_pool_state_change_limit, ensure_add_liquidity_limit, ensure_remove_liquidity_limit, on_finalize")], technique=STATEFUL)
prop("C26", "Trading fees are recalculated once per block from the asset's own history",
     "Over any history of volumes, liquidity and blocks, the first fee request for an asset in a block recalculates its asset and protocol fee from their previous values, the blocks passed since and the current oracle volume and liquidity of that asset, stores both, and every further request in the block returns the same fees; without oracle data the previous fees (initially the minimum) stay and nothing is stored. Fees never leave their configured bounds and assets do not influence each other.",
     ["histories", "inputs"], "all histories of volumes, gaps and requests; all fee parameters",
     "Decay over gaps, missing data and repeated requests interact over a history.",
     ["pallets/dynamic-fees/src/lib.rs", "pallets/dynamic-fees/src/types.rs"], [("update", "pallets/dynamic-fees/src/lib.rs update_fee")], technique=STATEFUL)
prop("C27", "Asset registry keeps ids, names, locations and sufficiency consistent",
     "Over any history of registering and updating assets (by the registry authority, the update authority, any user for external assets, or from code by name), no two assets share a name or a foreign location, and the location and id of an asset always map to each other both ways. Ids are either chosen explicitly, then unused and below the start of the sequential range, or sequential and never reused. Names and symbols must be long enough, and symbols free of whitespace. An asset once sufficient never becomes insufficient; decimals once set, and locations, can only be changed by the registry authority, and a changed location is freed; other properties change exactly as requested and are kept where nothing is given. Anyone can register an external asset for an unused location, as insufficient with minimal defaults; blacklisting needs the update authority and is set and lifted exactly once. Asking for an asset by name returns the existing one or registers it. All look-ups (existence, existential deposit, decimals, symbol, kind, rate limit, sufficiency, location, oracle whitelist) report what is recorded, and unknown assets as absent. A refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs"], "all histories of registrations and updates by all kinds of callers; all ids, names, symbols, decimals, locations and limits",
     "Uniqueness and one-way transitions over both mapping directions are claims about histories.",
     ["pallets/asset-registry/src/lib.rs", "pallets/asset-registry/src/types.rs"], [("registration and update", "pallets/asset-registry/src/lib.rs do_register_asset, update, register_external, ban_asset, get_or_register_asset, set_location")], technique=STATEFUL)
prop("C28", "Referral codes, links, shares and rewards are exact over any history",
     "Over any history of registering and linking codes, trade fees, conversions (some failing), claims, level and reward settings, referral bookkeeping equals the exact specification. A code is alphanumeric, long enough, case-insensitive, owned by one account and an account owns at most one; registering costs exactly the fee. An account links once and never to itself. From each trade fee the configured parts (by asset and referrer level, by default those of the level; referrer part only for linked traders) are taken, rounded down and never more than the fee, and turned into shares at the oracle price; without price nothing is taken. The shares of all accounts always add up to the recorded total. A claim first converts what is pending (small or worthless amounts are dropped, other failures stop it), pays shares' proportion of the pot above the seed, rounded down, uses up the shares and raises the referrer's level as far as every next threshold is reached. In idle time as many pending assets as the weight allows are converted or dropped. Reward settings above 100% or by others than the authority are refused. A refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs", "faults"], "all histories of codes, links, fees, conversions and claims by several users over several assets; all prices, rates, percentages, thresholds and failures",
     "Shares, pot and levels accumulate over histories across users and assets; the tests run short scripted ones.",
     ["pallets/referrals/src/lib.rs"], [("codes, fees and claims", "pallets/referrals/src/lib.rs register_code, link_code, convert, claim_rewards, set_reward_percentage, process_trade_fee, on_idle")], technique=STATEFUL)
prop("C29", "Staking pays, locks and slashes exactly and can always pay what it owes",
     "Over any history of staking, increasing, claiming, unstaking, voting, referenda ending, fees and passing periods, staking equals the exact specification: what comes into the pot is distributed over the stake present, rounded down; each position's rewards, points, slashed points, locked and unpaid rewards follow the reward per stake, time and votes; action points of a vote are its conviction-weighted part of the largest possible vote times the points per action, earned once and only when its referendum has finished; the counted vote never exceeds the stake nor what is neither vested nor a locked reward. Nothing is paid in the unclaimable periods; leaving or claiming afterwards returns what was not paid to the others. The owner's lock is always stake plus locked rewards, the total is the sum of stakes, and the pot always holds what positions are owed. Only unvested, unstaked balance of at least the minimum can be staked, in one position per account; votes must be removed before leaving and processed ones before claiming or increasing; only the owner can act. A refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs"], "all histories of stakes, claims, votes, fees, vesting and periods by several users; all parameters of points, slashing and payout",
     "Solvency and the interplay of votes, slashing and reward distribution over users are claims about histories.",
     ["pallets/staking/src/lib.rs", "pallets/staking/src/types.rs", "pallets/staking/src/integrations/democracy.rs"],
     [("positions and rewards", "pallets/staking/src/lib.rs stake, increase_stake, claim, unstake, update_rewards, calculate_rewards, process_votes"), ("votes", "pallets/staking/src/integrations/democracy.rs StakingDemocracy")], technique=STATEFUL)
prop("C30", "Recurring orders run as planned and never touch more than their budget",
     "Over any history of scheduling, blocks, price moves, failures and terminations, recurring orders equal the exact specification. Scheduling is accepted only for the signer's own account, with a budget worth at least the minimum, free to be reserved, a first trade of at least the minimum and 20 times the fee that together with the fee fits the budget, and a future start. What is reserved for an owner and asset is always exactly the sum of the remaining budgets; other reserves and locks are untouched. Every schedule is planned exactly once, in the future, in a block with room for it (a full block postpones by random, doubling delays); it is executed in exactly that block, and everything planned for a block is executed in it. An execution pays the fee to the fee receiver; nothing is traded when the price moved more than allowed; a trade gives at least (costs at most) the stricter of the owner's limit and the oracle price with slippage. Unstable prices, missed limits and errors set to be retried are retried after 10, 20, 40… blocks up to the allowed number, reset by success; other failures end the schedule. After a trade the next is planned one period later, or the order is completed when the rest is too small, and the rest is returned. Only the owner or the technical authority can terminate it, wherever it is planned, and all that is left is returned. A refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs", "faults"], "all histories of sell and buy orders by several users over several assets, blocks, prices, oracles and failures; all budgets, limits, periods and settings",
     "Budgets, retries and the plan interact over many blocks and several schedules; the tests run short scripted ones.",
     ["pallets/dca/src/lib.rs", "pallets/dca/src/types.rs"], [("planning and execution", "pallets/dca/src/lib.rs on_initialize, schedule, terminate, prepare_schedule, execute_trade, replan_or_complete, retry_schedule, plan_schedule_for_block")], technique=STATEFUL)

prop("C31", "Liquidity mining pays exactly the rewards earned and always returns the shares",
     "Over any history of farms created, changed, stopped, resumed and ended, of deposits, redeposits, claims and withdrawals of xyk pool shares and of passing blocks, liquidity mining equals the exact specification. Per period a global farm gives out stake × oracle (or set) price × yield per period, never more than the maximum per period nor than it holds above the existential deposit, shared among its active yield farms by valued shares × multiplier and among their deposits by valued shares since they entered; a stopped farm earns nothing and a deposit's time in it does not count for its loyalty. A claim pays the accumulated rewards times loyalty (initial + what the curve adds per period) less what was claimed; at most one claim per period; a reward too small to exist goes to the treasury. Rounding is downward everywhere, so the rewards held always cover what all deposits could still claim. Shares are locked in the pallet's account one to one with deposits, valued at entry in the farm's incentivized asset, at least the minimum, in farms of the deposit's own pool only; leaving the last farm returns exactly the deposited shares of that pool to the holder of the deposit's NFT and destroys it. Leaving is possible from active (with rewards), stopped (with rewards) and ended farms (without). Only the farm's owner manages it, only the NFT's holder uses a deposit, only the privileged origin creates farms; ending returns undistributed rewards. A refused call changes nothing; events, stored farms, deposits, balances and the list of accounts kept from dusting are exactly as specified.",
     ["histories", "inputs"], "all histories of several global and yield farms over several pools and reward currencies, depositors, blocks, values, prices and multipliers",
     "Accumulators, roundings and pauses interact over many periods, farms and deposits; the tests check scripted sequences with chosen numbers.",
     ["pallets/liquidity-mining/src/lib.rs", "pallets/liquidity-mining/src/types.rs", "pallets/xyk-liquidity-mining/src/lib.rs", "math/src/liquidity_mining/liquidity_mining.rs"], [("farms", "pallets/liquidity-mining/src/lib.rs"), ("entry points", "pallets/xyk-liquidity-mining/src/lib.rs")], technique=STATEFUL)

prop("C32", "Omnipool liquidity mining locks positions one to one and returns them intact",
     "Over any history of farms, of omnipool positions deposited, redeposited, withdrawn, sacrificed and passed on, of claims, listings and passing blocks, omnipool liquidity mining equals the exact specification. Every deposit has one position, owned by the pallet's account while deposited and recorded under the deposit, and one deposit NFT; nobody else can move, shrink or burn a deposited position; leaving the last farm returns that very position unchanged to the holder of the deposit's NFT, destroys the NFT and removes the record. A deposit counts the position's shares, and for rewards floor(position amount × oracle price of the hub asset per asset over the configured period and source) at the time of entering each farm, both at least the farm's minimum; without an oracle price entering is refused. Farms are created by the privileged origin with the hub asset as the incentivized one; creating, updating and resuming a yield farm and entering one need the asset to be in the omnipool, stopping, ending, claiming and leaving do not. Only the owner of the position deposits it, only the NFT's holder redeposits, claims and withdraws, only the farm's owner manages a farm. Rewards, loyalty, farms and balances follow the same exact rules as in C31 liquidity mining. A claim of nothing is refused. A refused call changes nothing; events report exactly what happened.",
     ["histories", "inputs"], "all histories of several farms, positions, holders, listings and prices",
     "Deposits, positions and entries in several farms interact over time; tests script one deposit at a time.",
     ["pallets/omnipool-liquidity-mining/src/lib.rs", "pallets/liquidity-mining/src/lib.rs"], [("entry points", "pallets/omnipool-liquidity-mining/src/lib.rs")], technique=STATEFUL)

prop("C33", "Only balances below the minimum are dusted, entirely, to the dust account",
     "Over any history of dusting, listing, transfers, reserves and changed minimal balances: anyone signed may dust an account in a currency exactly when the account is not on the list, its total balance (free and reserved) is not zero and is below that currency's minimal balance, and all of it can be transferred; then exactly the total balance moves to the dust account, one event with that amount is emitted, and the duster is paid exactly the reward in the native currency from the reward account; when that cannot be paid dusting still succeeds and nothing is paid. Dust reported by the currency goes to the dust account when it can be transferred. Only the privileged origin changes the list by a call; adding is idempotent, removing an account that is not listed is refused, by call and by the trait other pallets use; the whitelist given to the currency is exactly this list. Nothing else moves; a refused call changes nothing.",
     ["histories", "inputs"], "all histories over several accounts and currencies, minimal balances and rewards, including dusting the dust and reward accounts themselves",
     "Listing, reserved balances and changing minima combine; tests check one account at a time.",
     ["pallets/duster/src/lib.rs"], [("dusting", "pallets/duster/src/lib.rs dust_account")], technique=STATEFUL)

prop("C34", "Each claim is paid once, in full, to the account the key signed for",
     "Over any history of claims: a claim is paid exactly when the signature recovers, for the text prefix + lower-case hex of the sender's encoded account wrapped as an Ethereum personal message (with its decimal length), to an address with something due, and the amount due can be deposited; then exactly the amount due (the sum of all genesis entries of the address) is issued to the sender, nothing remains due, and one event names sender, address and amount. A signature made for another account, with another prefix or altered anywhere pays nothing; equivalent encodings of the same signature (recovery id plus 27, mirrored s) never pay twice. The transaction extension accepts a claim exactly when signature and amount due are right, both in validate and pre_dispatch, never changes storage, and accepts every other call. A refused claim changes nothing.",
     ["histories", "inputs"], "all histories of claims by several accounts and keys, signatures altered in any byte, existential deposits and prefixes",
     "The tests use a handful of recorded signatures; the guarantee is about all signatures and all orders.",
     ["pallets/claims/src/lib.rs", "pallets/claims/src/traits.rs"], [("claim", "pallets/claims/src/lib.rs"), ("recovery", "pallets/claims/src/traits.rs EcdsaSignature::recover")], technique=STATEFUL)

prop("C35", "A call is blocked exactly while its pallet and function are paused",
     "Over any history of pausing and unpausing: only the allowed origin changes what is paused; pausing accepts names up to 40 bytes, a pallet name that is valid UTF-8 and not this pallet's own name; unpausing accepts names up to 40 bytes; pausing what is paused and unpausing what is not succeed without event or change. At every moment the filter reports a runtime call as paused exactly when the pair of its exact pallet name and exact function name is paused, whatever its arguments; calls whose names are longer than 40 bytes and the pause pallet's own calls are never reported. A refused call changes nothing; events report exactly the changes.",
     ["histories", "inputs"], "all histories of pausing and unpausing over exact names, near misses (cut, longer, other case, swapped, non-UTF-8, lengths around the limit) and arguments",
     "Tests pause one call and look at that call; the filter must be exact for every call and every set of paused names.",
     ["pallets/transaction-pause/src/lib.rs"], [("filter", "pallets/transaction-pause/src/lib.rs PausedTransactionFilter")], technique=STATEFUL)

prop("C36", "Every collator of a session is rewarded once when the session ends",
     "Over any history of sessions: a new session returns the wrapped manager's collators and remembers them for that index, unless they are more than the maximum, then it returns none and remembers nothing new; without collators from the wrapped manager nothing is remembered either. When a session ends, every remembered collator that is not excluded at that time is issued exactly the reward in the reward currency, once per session, with one event each in order; a collator whose deposit fails is skipped without stopping the others; the remembered list is removed, so ending again pays nothing. Every start, end and new session is passed on to the wrapped manager exactly once. Nothing else is issued.",
     ["histories", "inputs"], "all histories of overlapping sessions, lists, exclusions, rewards and balances",
     "Tests run a few sessions with fixed collators.",
     ["pallets/collator-rewards/src/lib.rs"], [("sessions", "pallets/collator-rewards/src/lib.rs SessionManager")], technique=STATEFUL)

prop("C37", "EVM addresses map back to the one account that bound them",
     "Over any history of binding, listing and changing nonces: an account's EVM address is the first 20 bytes of its 32; binding succeeds exactly when nothing is bound to that address and the address' EVM nonce is zero, and from then on the address maps to exactly that account for good; an address not bound maps to its truncated account 'ETH\\0' + address + eight zero bytes. An account is reported as an EVM account exactly when it has that form (first four bytes and last eight). Only the controller adds and removes deployers and every signer can renounce their own address; an address may deploy exactly while listed; adding and removing are idempotent and emit their event every time. A refused call changes nothing.",
     ["histories", "inputs"], "all histories over accounts sharing their first 20 bytes, truncated accounts and raw bytes; all nonces",
     "The mapping must be exact for all 32-byte accounts; the tests use one account.",
     ["pallets/evm-accounts/src/lib.rs"], [("mapping", "pallets/evm-accounts/src/lib.rs InspectEvmAccounts")], technique=STATEFUL)

prop("C38", "The EVM base fee follows price and load exactly and stays in its bounds",
     "In every block, with default fee f, fee multiplier m and the oracle's price p = n/d of ETH in the native currency, the base fee becomes floor((f + 3*floor(m*f)) * floor(floor(p)/reference)), all rates as 18-decimal fixed point rounded down and every product and sum saturating at the largest 128-bit number, clamped to the configured minimum and maximum. When there is no price, its denominator is zero or it is not representable, the fee stays as it was. Before the first price the fee is the default; what the EVM is charged is always the stored fee.",
     ["inputs", "histories"], "all multipliers, prices, defaults and bounds the types hold, sequences of blocks with changing ones",
     "Tests sample a handful of prices and multipliers; overflow, zero and absent prices need the full range.",
     ["pallets/dynamic-evm-fee/src/lib.rs"], [("base fee", "pallets/dynamic-evm-fee/src/lib.rs on_initialize")], technique=STATEFUL)

prop("C39", "Incoming XCM assets above their rate limit are deferred in proportion",
     "Over any history of messages: only the first instruction counts, only when it is ReserveAssetDeposited or ReceiveTeleportedAsset, and in it only concrete fungible assets whose location has a local id with a configured limit L. For each of them the amount accumulated for that location decays by floor(L * blocks since its last message / D) down to zero, the incoming amount is added (saturating), stored with the current relay block, and the deferral is floor(D * (accumulated - L) / L) blocks, zero when not above L (D and a divisor L at least 1, saturating). The message is deferred by the largest of them, at most the configured maximum, and not at all when that is zero. Messages of an older version are judged like their conversion; one that cannot be converted is deferred by the maximum. Everything else is neither limited nor recorded.",
     ["histories", "inputs"], "all message histories over several locations (two with the same local id, one unknown), versions, amounts and limits of all sizes including zero",
     "Accumulation depends on the whole history of amounts, times and limits.",
     ["pallets/xcm-rate-limiter/src/lib.rs", "math/src/rate_limiter/math.rs"], [("deferral", "pallets/xcm-rate-limiter/src/lib.rs deferred_by")], technique=STATEFUL)

prop("C40", "Every currency operation acts on that currency's own store, exactly",
     "For the currencies pallet (multi-currency, lock, reserve, named-reserve and transfer-all traits and its calls), its single-currency adapter and its fungibles adapter: every operation and every query on the native currency has exactly the outcome and effect of the corresponding operation on the native balances, and on any other currency exactly that of the token store; no other account or currency is touched. Withdrawals and transfers may empty the account, locks and withdrawals apply to all reasons, a native deposit that cannot be made in full fails. Transfers of nothing or to oneself (but not by the native transfer call), deposits and withdrawals of nothing change nothing and emit nothing; otherwise a successful transfer, deposit, withdrawal or balance update (including by zero) emits one event with currency, accounts and amount. Only root updates balances by call. Moving everything moves all tokens and then the free native balance or nothing at all. Issuance always equals the sum of all balances.",
     ["histories", "inputs"], "all histories over several accounts and currencies, the native one being any of them, minimal balances, locks and reserves",
     "Dozens of functions each choose between two stores; tests sample a few of them with one native id.",
     ["pallets/currencies/src/lib.rs", "pallets/currencies/src/fungibles.rs"], [("routing", "pallets/currencies/src/lib.rs"), ("fungibles", "pallets/currencies/src/fungibles.rs")], technique=STATEFUL)

prop("C41", "NFTs and collections change hands only as owners and permissions allow",
     "Over any history of calls and trait functions: a call creates a collection only with an unreserved, unused id when its type may be created; mints only into a known collection by its owner when its type may be minted; transfers and burns only by the item's owner when the type allows it; destroys only an empty collection by its owner when allowed. The traits other pallets use skip permissions and reserved ids (not existence, uniqueness, emptiness or a given owner). Transfers of frozen items fail; a call transferring to oneself is no change. Collections whose type has a deposit hold it (and one per item) from the collection's owner until destroyed or burned, the others nothing. Every view (owner, items, owned items, metadata, counts) agrees with the history; each change emits its event; a refused call changes nothing. The pallet's permission table allows everything for Marketplace and only transfers for LiquidityMining.",
     ["histories", "inputs"], "all histories over several collections, items, owners, permission tables, deposits and balances, with collections and items also created by the uniques pallet itself",
     "Tests exercise single steps with one permission table.",
     ["pallets/nft/src/lib.rs", "pallets/nft/src/types.rs"], [("calls", "pallets/nft/src/lib.rs"), ("permissions", "pallets/nft/src/types.rs NftPermissions")], technique=STATEFUL)
prop('C42','OTC settlements close arbitrage without making or losing tokens',
"Settling an OTC order against the router fills exactly the stated part of the order (the whole order when it is not partially fillable) over the stored route, pays the whole surplus to the profit receiver, and leaves issuance and the settling account's own balances of both assets unchanged. It is refused, with nothing changed, when the route differs, when a partially fillable order's price and the market price afterwards differ by more than the configured precision, when the profit is below the configured share of the order, or when the router takes or gives anything unexpected. The offchain worker never fails, whatever happened to the orders since its list was made; each transaction it submits is accepted when the chain executes them in order, and only unsigned ones from inside the node are valid.",
["histories of orders, market moves, donations, route changes, router faults, settlements by any origin and worker runs for newer, equal and older blocks"],
"for every history of OTC orders, market state and worker runs",
"Settlement mints the order's wanted amount out of nothing and burns it again; any leak between the two is free money, and it can be called by anyone. Unit tests cover single orders on one omnipool.",
['pallets/otc-settlements/src/lib.rs'],
[('settlement','pallets/otc-settlements/src/lib.rs: settle_otc'),('offchain worker','pallets/otc-settlements/src/lib.rs: sort_otcs, settle_otcs, try_find_trade_amount'),('unsigned validity','pallets/otc-settlements/src/lib.rs: validate_unsigned')],
technique=STATEFUL)
prop('C43','Fees are charged exactly once, in the right currency, at the right price',
"A transaction's fee is taken in the currency the transaction itself sets (directly or as first call of a batch), otherwise in the account's chosen currency, otherwise in the native one, converted at the price of the block's start, else the oracle's, else the fallback; never less than one unit for a non-zero fee. It is refused, with nothing changed, without a price or sufficient balance. After execution the payer gets back exactly the unused part and the receiver gets the rest; a transaction whose fee was accepted never becomes invalid afterwards, and a refund that cannot be made stays with the fee. Only accepted currencies can be chosen; only the authority changes the list or resets accounts; the fee currency of an account without native balance follows its first accepted token and goes when that balance or the account goes. Prices are set at block start for every accepted currency, whatever the oracle answers, and dropped at its end. An EVM permit is only dispatched unsigned with the right fee currency in force during the dispatch and at no other time, never fails as a call, and its validation leaves no trace.",
["histories of fees for all kinds of calls, currency and price changes, transfers, blocks and permits"],
"for every sequence of transactions, account openings and closings, prices and permits",
"Fee conversion runs on every transaction with any price and any balance; unit tests cover a handful of prices.",
['pallets/transaction-multi-payment/src/lib.rs','pallets/transaction-multi-payment/src/traits.rs'],
[('charging','pallets/transaction-multi-payment/src/lib.rs: TransferFees'),('prices','pallets/transaction-multi-payment/src/lib.rs: on_initialize, get_currency_price, get_oracle_price'),('account hooks','pallets/transaction-multi-payment/src/lib.rs: AddTxAssetOnAccount, RemoveTxAssetOnKilled'),('permits','pallets/transaction-multi-payment/src/lib.rs: dispatch_permit, validate_unsigned')],
technique=STATEFUL)
prop("C44", "Democracy: votes, delegations and locks are exact",
     "At every moment the tally of an open referendum equals the sum of the standing votes of its voters (conviction-weighted: 0.1x to 6x; split votes 0.1x per side) plus what is delegated to its standard voters, whatever the order of votes, changed votes, removals, delegations and undelegations. The power delegated to an account is the sum of the standing delegations to it. A vote or delegation never exceeds the free balance and is covered by the account's lock as long as it stands; the lock only shrinks through an unlock call, and only to the largest standing vote, delegation or earlier lock. Removing a vote from a finished referendum keeps the winner's stake locked until the end plus the conviction's lock periods (1, 2, 4, 8, 16, 32), the loser's only if the staking hook asks for it; another account may remove a vote only when nothing is to be locked any more and the referendum is over. Undelegating keeps the balance locked for the conviction's lock periods from then on. A refused call changes nothing; the staking hooks hear of every vote and removal exactly once.",
     ["histories of votes, removals, delegations, unlocks, referenda opening, ending and being cancelled"], "every history",
     "Tallies are kept incrementally at two sites (own vote, delegation) and must agree with a recount after any sequence; unit tests fix one sequence each.",
     ["pallets/democracy/src"],
     [("tally kept by try_vote / try_remove_vote / increase_ / reduce_upstream_delegation", "pallets/democracy/src/lib.rs"), ("locks: Voting::locked_balance, PriorLock", "pallets/democracy/src/vote.rs"), ("Conviction", "pallets/democracy/src/conviction.rs")],
     technique=STATEFUL)
prop("C45", "Democracy: proposals are tabled, decided and enacted by the rules",
     "Deposits for public proposals are reserved, kept per depositor, returned in full when the proposal is tabled, and slashed when it is cancelled or blacklisted. At each launch period one referendum is tabled: the external one or the public proposal with the highest total backing, alternating while both wait. A referendum ends exactly at its end block and passes by exactly its threshold rule (super-majority approve: nays/sqrt(turnout) < ayes/sqrt(electorate); super-majority against: nays/sqrt(electorate) < ayes/sqrt(turnout); simple majority) with the total issuance as electorate; a passed one is scheduled once, under its own name, as root, at the end block plus its delay (at least one block). Only an external proposal with a majority or default threshold can be fast-tracked, by the fast-track origin with at least the fast-track period, or by the instant origin if allowed. Vetoed or blacklisted proposals cannot be proposed again until their time is over, no one vetoes the same proposal twice, a proposal is emergency-cancelled at most once, and attached notes follow a proposal into its referendum and are cleared with it. Each call is open to its origin only; a refused call changes nothing.",
     ["histories of proposals, seconds, launches, referenda, vetoes, blacklisting, cancellations, notes; tallies near the threshold"], "every history and every tally",
     "Tabling order, ending and enactment follow from the whole history; threshold decisions differ only close to an irrational bound.",
     ["pallets/democracy/src"],
     [("launch_next, bake_referendum, begin_block", "pallets/democracy/src/lib.rs"), ("Approved for VoteThreshold", "pallets/democracy/src/vote_threshold.rs"), ("fast_track, veto_external, blacklist, set_metadata", "pallets/democracy/src/lib.rs")],
     technique=STATEFUL)
prop("C46", "Price along a route and price of a fee currency",
     "The price the chain derives from its oracle for an asset pair is the product of the oracle prices along the pair's route (over the configured period and in the direction of each trade; omnipool hops go through the hub asset), exact up to the precision of the ratio type, and absent exactly when any hop has no price. The native price of a fee currency is that price, inverted and turned into a fixed-point number rounded down; the amount converted with it is the one the price gives; no case panics.",
     ["routes of any mixture of pools", "oracle prices of any magnitude, missing prices, periods"], "every route and price",
     "Ratios of 128-bit numbers must be multiplied with rescaling; wrong direction or loss of precision shows only for odd magnitudes.",
     ["runtime/adapters/src"],
     [("OraclePriceProvider", "runtime/adapters/src/price.rs"), ("AssetFeeOraclePriceProvider, ConvertAmount", "runtime/adapters/src/price.rs")],
     technique="property-based testing of generated routes and prices against an exact big-integer oracle")
prop("C47", "One view of native and other balances, locks, and of who may open a pool",
     "Through the combined views, the balance, reducible balance and minimum balance of any asset are those of the ledger that holds it (the native one for the native asset, the token ledger for all others); the locked balance of an account is the named lock in that ledger; the vesting lock is what the vesting schedules still hold, and the balance in a fee currency is the account's free balance there. A constant-product pool may be opened for exactly the pairs that contain no share token or hub asset and whose sale, if there is one, is over.",
     ["histories of transfers, locks, vestings in both ledgers", "asset pairs of every kind, and times"], "every history",
     "The adapters choose a ledger per call; confusion shows only when both ledgers disagree.",
     ["runtime/adapters/src"],
     [("MultiInspectAdapter", "runtime/adapters/src/inspect.rs"), ("MultiCurrencyLockedBalance, VestingInfo, FeeAssetBalanceInCurrency", "runtime/adapters/src/lib.rs"), ("AllowPoolCreation", "runtime/adapters/src/xyk.rs")],
     technique="stateful property-based testing of generated histories against two reference ledgers")
prop("C48", "Execution time of cross-chain messages: charged, refunded, and never lost",
     "Buying weight takes from the message exactly weight fee times the oracle price of the first fungible asset, rounded down, fails without effect if that asset has no price or does not suffice, and leaves all other assets in the message. Refunding gives back at most what was paid and at most the fee of the weight bought and not yet refunded, at the price paid. What is neither refunded becomes revenue when the trader is dropped, in the same assets, and all revenue in known currencies reaches the receiver of fees: paid = refunded + revenue per asset.",
     ["sequences of buying and refunding weight in several assets at changing prices"], "every sequence",
     "The trader tracks payments per asset and price across steps; double refunds or lost revenue need a sequence of calls.",
     ["runtime/adapters/src"],
     [("MultiCurrencyTrader", "runtime/adapters/src/lib.rs"), ("ToFeeReceiver", "runtime/adapters/src/lib.rs")],
     technique=STATEFUL)
prop("C49", "Only plain transfers and swaps are executed from ordinary accounts",
     "A message executed locally by an origin other than root is let through exactly when every instruction in it, at every level of nested messages, is one of those of plain transfers and swaps (clear origin, exchange, withdraw, transfer, deposit, expect asset, set fees mode, buy execution, initiate reserve withdraw, deposit reserve, transfer reserve), it is not nested deeper than the depth limit, and all levels together hold no more instructions than the instruction limit. Root's messages are always let through.",
     ["message trees of all instructions; limits"], "every message",
     "A forbidden instruction can hide at any depth and behind any of three nesting instructions, limits count across branches.",
     ["runtime/adapters/src"],
     [("AllowTransferAndSwap", "runtime/adapters/src/xcm_execute_filter.rs")],
     technique="property-based testing of generated message trees against a recursive reference decision")
prop("C50", "Assets of cross-chain messages are exchanged, deposited and moved without loss",
     "An exchange of one fungible asset for one other through the router gives the message exactly what the router trades for it (selling: everything given, for at least what is wanted; buying: exactly what is wanted, with the change returned), leaves nothing in the temporary account, and otherwise returns all that was given and changes nothing. A deposit credits the account of its location (or the configured destination for rerouted pairs of currency and account) by exactly the amount; a failed deposit goes to the failure handler; assets or locations that are not known are left to the unknown-asset ledger; a withdrawal or transfer moves exactly the amount, or fails without effect.",
     ["histories of exchanges, deposits, withdrawals and transfers of known and unknown assets"], "every history",
     "Minted and burned amounts around the trade must cancel for every price, limit and existing balance.",
     ["runtime/adapters/src"],
     [("XcmAssetExchanger", "runtime/adapters/src/xcm_exchange.rs"), ("ReroutingMultiCurrencyAdapter", "runtime/adapters/src/lib.rs")],
     technique=STATEFUL)
prop("C51", "What the pools report reaches oracle, breaker, referrals and staking",
     "With every pallet wired as in the runtime, each trade or change of liquidity in the omnipool or a stable pool reports exactly what happened: the oracle records, for the pair of the asset and the hub asset (or the share token), the direction, both amounts, and the reserves and price after it; the circuit breaker sees the reserve before and the amount that moved, so that a net trade volume or added or removed liquidity above its limit in one block is refused as a whole (except a safe withdrawal and exempt accounts); the trading fee is offered to referrals, then staking, which together never take more than the fee. A refused call leaves nothing behind, reports do not change the trade itself, and after every call the issuance of the traded assets is unchanged and the pool holds exactly the hub asset of its reserves. After the block, the last-block oracle entry shows the final price, final reserves and summed volumes, and the dynamic fees read the same.",
     ["histories of trades, liquidity, limits, fees and blocks over omnipool and stable pool together"], "every history",
     "Each pallet's own tests mock the others; a swapped amount, reserve or direction between them shows only with all of them wired together.",
     ["runtime/adapters/src", "pallets/omnipool/src", "pallets/stableswap/src", "pallets/circuit-breaker/src", "pallets/ema-oracle/src", "pallets/referrals/src", "pallets/staking/src"],
     [("OmnipoolHookAdapter", "runtime/adapters/src/lib.rs"), ("StableswapHooksAdapter", "runtime/adapters/src/lib.rs"), ("OmnipoolHooks calls", "pallets/omnipool/src/lib.rs")],
     technique="stateful property-based testing: generated histories with all pallets wired together, against the same history with a reference model of the hooks")
prop("C52", "Oracle prices, volumes, bonds and relay chain data as other pallets read them",
     "At every moment, the price the omnipool compares itself with is the oracle's price of that pair over the configured period (or a stated error if there is none); the volume and liquidity behind dynamic fees are those of the oracle's last-block entry for the asset and the hub asset; the price adjustment of a farm is the oracle price of its reward asset, or of the asset a bond stands for, against the incentivised asset, and absent otherwise; the relay chain block number and parent hash are those of the validation data (zero and none without it); and freezing a collection succeeds exactly for its owner and freezes exactly that collection.",
     ["histories of oracle activity, bond issues, asset kinds, relay chain data and freezes"], "every history",
     "These readers combine several pallets' state; wrong source, period, direction or the wrong asset of a bond shows only in particular states.",
     ["runtime/adapters/src", "pallets/bonds/src", "pallets/ema-oracle/src"],
     [("EmaOraclePriceAdapter, OracleAssetVolumeProvider", "runtime/adapters/src/lib.rs"), ("PriceAdjustmentAdapter", "runtime/adapters/src/lib.rs"), ("RelayChainBlockNumberProvider, RelayChainBlockHashProviderAdapter, FreezableNFT", "runtime/adapters/src/lib.rs")],
     technique=STATEFUL)
prop("C53", "Every arithmetic function answers or refuses any input and never panics",
     "Every public function of the arithmetic library (pools, fees, shares, prices, oracle averages, farms, staking, dynamic fees, rate limits, subpools, fractions, rationals) returns a value or a refusal for every input of its types: zero, one, the largest values, empty or mismatched lists, indices beyond the list, any decimals, any rate and any block number. It never panics, never divides by zero, never overflows an intermediate result and never fails to end.",
     ["inputs"], "every public function of the crate, every value of its argument types (shares and fractions at most one)",
     "A panic in the runtime stops the block; it hides behind one combination of extremes among more than seventy functions, and unit tests name only a few.",
     ["math/src"],
     [("checked arithmetic and guards of every public function", "math/src/*/math.rs, math/src/lbp/lbp.rs, math/src/omnipool/types.rs, math/src/ratio.rs"), ("index and length guards", "math/src/stableswap/math.rs")])
prop("C54", "Solidity values survive encoding, and malformed ones are refused",
     "What the precompiles' codec encodes is exactly the Solidity ABI encoding, and decoding it gives the same value back: numbers of every width, booleans, addresses, fixed words, byte strings, arrays, tuples and structures, nested in any way, as arguments and as results. Input that is cut short, points outside itself, exceeds a bound or a width, or is plain noise is refused with an error and never panics or reads elsewhere. Gas costs of logs, calls and database accesses are those of the tables, and calls are accepted only in the contexts their modifier allows (view, payable, static).",
     ["inputs"], "every value of the supported types, every byte string as call data, every modifier and context",
     "Call data is written by anyone; a codec that misreads one nesting or offset moves other amounts to other people than the signer meant, which single-value tests cannot show.",
     ["precompiles/utils/src"],
     [("codec of values, tuples, arrays and bounded strings", "precompiles/utils/src/solidity/codec"), ("reverts with a backtrace", "precompiles/utils/src/solidity/revert.rs"), ("costs and modifiers", "precompiles/utils/src/evm/costs.rs, precompiles/utils/src/evm/handle.rs, precompiles/utils/src/solidity/modifier.rs"), ("the runtime's own reader and writer", "runtime/hydradx/src/evm/precompiles/substrate.rs, runtime/hydradx/src/evm/precompiles/handle.rs")])
prop("C55", "Every asset is an EVM contract that shows and moves exactly that asset",
     "Each asset id has exactly one contract address and each such address exactly one asset id. At that address, name, symbol, decimals, total supply and balances are those of the asset and of the account the address stands for (bound or not), and a transfer moves exactly the amount from the caller's account to the recipient's or fails without a trace. Amounts above 128 bits, attached value, static or delegated calls, unknown functions, short data and too little gas are refused. Every other address is answered by the contract it belongs to: the Ethereum precompiles by theirs (also when delegated to), the call permit and dispatch contracts by theirs (never delegated to), and any other address by none.",
     ["histories", "inputs"], "every address, every call data, every history of bindings, mints and transfers over several assets",
     "EVM wallets see and move the chain's assets only through this mapping; an address or account mapped wrongly in one rare case gives away somebody's balance.",
     ["runtime/hydradx/src/evm/precompiles", "runtime/hydradx/src/evm/accounts_conversion.rs", "pallets/evm-accounts/src/lib.rs"],
     [("asset id and address", "runtime/hydradx/src/evm/precompiles/erc20_mapping.rs"), ("the asset contract", "runtime/hydradx/src/evm/precompiles/multicurrency.rs"), ("which contract answers", "runtime/hydradx/src/evm/precompiles/mod.rs:execute")], technique=STATEFUL)
prop("C56", "A signed permit makes exactly the call its owner signed, once",
     "A call permit runs if and only if its owner signed exactly this call (target, value, data, gas limit) for his current permit nonce, a deadline not passed, this chain and this contract. It then runs as the owner, with that value, data and gas, and uses up the nonce before the call is made, so that no permit (nor another one with the same nonce) is used twice, not even from inside the call itself. This holds for the permit contract, for permits sent as unsigned transactions and for the pool's validation, which says the same and changes nothing. A permit that cannot run leaves no trace (and as a transaction pauses that transaction); one sent as a transaction pays its fee in the currency the signed call chooses, or else the account's, and never changes the account's own nonce or leaves a currency override behind.",
     ["histories"], "every history of permits signed, tampered with, replayed, nested in one another, expired and failing, over several owners, times, chains and currencies",
     "A permit is a bearer authority over the owner's funds; reuse or tampering appears only for particular nonces, nestings or failing calls.",
     ["precompiles/call-permit/src/lib.rs", "runtime/hydradx/src/evm/permit.rs", "pallets/transaction-multi-payment/src/lib.rs"],
     [("digest, deadline, recovery, nonce", "precompiles/call-permit/src/lib.rs:dispatch"), ("permits as transactions", "runtime/hydradx/src/evm/permit.rs:dispatch_permit"), ("currency and pause", "pallets/transaction-multi-payment/src/lib.rs:dispatch_permit"), ("validation in the pool", "pallets/transaction-multi-payment/src/lib.rs:validate_unsigned")], technique=STATEFUL)
prop("C57", "EVM fees cost what the gas costs in the payer's currency and reach the treasury",
     "Taking an EVM fee takes exactly its worth in the payer's fee currency (the override of this transaction, else WETH), rounded up, at the price then known; it is refused without a trace when there is no price, nothing to pay or not enough free balance, and asking whether it can be taken gives the same answer. Correcting it gives back exactly what exceeds the corrected fee at the same price, and the treasury receives exactly what the payer lost; a refund that cannot be made goes to the treasury. A transaction reaches the interpreter, unchanged, if and only if its nonce, gas limit, prices and shown balance allow it, or no validation was asked for. The block author's EVM address is the fixed part of his key.",
     ["histories"], "every history of fees, corrections, tips and validated runs over several payers, currencies, prices, locks and existential deposits",
     "Fees are charged on every EVM transaction; a rounding or refund error mints or burns a little each time, and a validation gap lets unpaid calls run.",
     ["runtime/hydradx/src/evm/evm_fee.rs", "runtime/hydradx/src/evm/runner.rs", "runtime/hydradx/src/evm/accounts_conversion.rs"],
     [("taking and correcting", "runtime/hydradx/src/evm/evm_fee.rs:withdraw_fee, correct_and_deposit_fee"), ("currency of the fee", "runtime/hydradx/src/evm/evm_fee.rs:FeeCurrencyOverrideOrDefault"), ("validation and passing on", "runtime/hydradx/src/evm/runner.rs:validate, call, create, create2")], technique=STATEFUL)
prop("C58", "An account may hold an insufficient asset only against a deposit it gets back",
     "When an account first receives an asset that the registry does not call sufficient, 1.1 times the native existential deposit, or its worth in the payer's fee currency, goes from the payer to the treasury. The payer is the sender, or the receiver if the sender is a module account or there is no sender. If it cannot be paid, the transfer or deposit fails without a trace. Each such deposit keeps one existential deposit locked on the treasury and one reference on the account; when the account's balance of the asset ends, the lock and the reference go and the deposit is refunded in HDX. So the lock is always the existential deposit times the number of live token accounts of insufficient assets. Banned assets cannot be received. Dust goes to the treasury without changing the asset's total issuance, and every operation ends.",
     ["histories"], "every history of transfers, deposits, withdrawals, reserves, dusting, bans, fee currency changes and whitelisting over several accounts and assets",
     "The deposit keeps the chain's state from being filled for nothing; a count that drifts once locks the treasury's money for ever or lets accounts in free of charge, and hooks that call themselves without end stop a block.",
     ["runtime/hydradx/src/assets.rs", "pallets/duster/src/lib.rs", "pallets/asset-registry/src/lib.rs"],
     [("charging on first receipt, refunding at the end", "runtime/hydradx/src/assets.rs:SufficiencyCheck, OnKilledTokenAccount"), ("dust", "runtime/hydradx/src/assets.rs:DustRemovalAdapter, pallets/duster/src/lib.rs:on_dust")], technique=STATEFUL)
prop("C59", "Assets and accounts keep their identity across chains",
     "Currency ids and cross-chain locations are converted into each other without confusion: a registered location and its asset id name each other and nothing else does; HDX is the native location seen from here and from outside; whatever else names no asset. A stored location gives back the location it was made from. An account's location is its 32 bytes at this chain, and an EVM address sent from outside becomes exactly the account it is bound to (or its fixed truncated account). Assets of the Asset Hub's foreign kind are accepted as reserve only from the Asset Hub, only when fungible and from beyond the relay chain. A minimum fee is asked of transfers to the Asset Hub only.",
     ["inputs"], "every location, junction, asset id, chain id, registration and binding",
     "A location read as another asset credits one token for another; the odd junctions that do it are ones nobody writes in a test.",
     ["runtime/hydradx/src/xcm.rs"],
     [("currency ids", "runtime/hydradx/src/xcm.rs:CurrencyIdConvert"), ("accounts", "runtime/hydradx/src/xcm.rs:AccountIdToMultiLocation, EvmAddressConversion"), ("reserves and fees", "runtime/hydradx/src/xcm.rs:IsForeignNativeAssetFrom, ParachainMinFee")])
prop("C60", "Calls and privileges reach only those they are meant for",
     "No call by which a user could transfer LRNA, an asset of the omnipool or HDX to the omnipool's account passes the call filter, nor one that makes an XYK pool with LRNA, creates an EVM contract, or uses the XCM pallet for more than sending; a paused call does not pass, system, timestamp and parachain calls always do, and so does every other call. Another chain may make only calls that pass this filter and are on the safe list. A proxy makes only calls of its kind, and only the unrestricted kind covers others. Each privileged action is open to root and to the share of the council or technical committee it is assigned to (or to signed accounts, or to nobody) and to no one else; the scheduler ranks origins by root and by share of the council.",
     ["inputs"], "every call of every pallet, with every destination, assets, hub asset, pool content and set of paused calls; every origin and share of votes at every privileged place",
     "A filter with one hole lets anybody shift omnipool prices by a plain transfer; tests try a few calls out of hundreds and few shares of votes.",
     ["runtime/hydradx/src/system.rs", "runtime/hydradx/src/xcm.rs", "runtime/hydradx/src/governance.rs", "runtime/hydradx/src/assets.rs"],
     [("the call filter", "runtime/hydradx/src/system.rs:CallFilter"), ("calls by other chains", "runtime/hydradx/src/xcm.rs:SafeCallFilter"), ("proxies", "runtime/hydradx/src/system.rs:ProxyType"), ("origins and their ranks", "runtime/hydradx/src/governance.rs:OriginPrivilegeCmp, SuperMajorityTechCommittee")])
prop("C61", "Pool accounts are unmistakable, treasury payments exact, shared lists right",
     "The account of an asset pair (and of a stableswap pool) depends only on the two assets, whatever their order, and on the tag: different pairs never share one. The treasury pays exactly the amount approved or nothing happens. Native dust is handed to the treasury whole, and the total issuance of HDX stays the sum of what is held. Module accounts are shielded from dusting, the treasury alone from the circuit breaker; the oracle takes assets that are both sufficient, or pairs listed. Bonds may be issued for tokens and shares only. Fees grow with weight and length as set. The rewards of every referral level add up to exactly half, and a higher level never gives the referrer less.",
     ["histories", "inputs"], "every pair of ids and tag, every history of payments and dust, every asset kind, sufficiency, list entry, weight and length",
     "These small parts are shared by every pool, fee and trade; two pairs sharing one account or dust counted twice goes unnoticed until money is missing.",
     ["runtime/hydradx/src/assets.rs", "runtime/hydradx/src/governance.rs", "runtime/hydradx/src/system.rs", "runtime/hydradx/src/lib.rs"],
     [("accounts of pairs and pools", "runtime/hydradx/src/assets.rs:AssetPairAccountId, StableswapAccountIdConstructor"), ("treasury payments", "runtime/hydradx/src/governance.rs:PayFromTreasuryAccount"), ("dust of HDX", "runtime/hydradx/src/assets.rs:DustRemovalAdapter"), ("lists and levels", "runtime/hydradx/src/assets.rs, runtime/hydradx/src/lib.rs:get_all_module_accounts")], technique=STATEFUL)
prop("C62", "A storage upgrade carries over everything that was stored",
     "A pallet's storage upgrade keeps what its old layout held and leaves the rest of the storage alone. Asset registry (only at version 1): each asset keeps its id, name, kind (pool shares become XYK), existential deposit, rate limit and location, gets the symbol and decimals of its metadata, and is sufficient. Paused calls, a session's collators, collections, items, referenda, proposals in order and the next external proposal (democracy only at version 0; hashes become legacy references) are kept; only what is longer than its new bound is dropped. No key of the old layout remains and the version is set; running it again changes nothing. Giving democracy's funds back unreserves exactly each account's deposits and ends its vote lock, no other. Codes registered in advance for other chains never take over a code somebody has.",
     ["inputs"], "every content of the old layout, every version, bound, and other content of the storage",
     "An upgrade runs once, on state nobody wrote a test for; an entry it drops or leaves under the old key is lost to its owner.",
     ["pallets/asset-registry/src/migration.rs", "pallets/transaction-pause/src/migration.rs", "pallets/collator-rewards/src/migration.rs", "pallets/nft/src/migration.rs", "pallets/democracy/src/migrations/v1.rs", "pallets/democracy/src/migrations/unlock_and_unreserve_all_funds.rs", "pallets/referrals/src/migration.rs", "pallets/duster/src/migration.rs", "pallets/genesis-history/src/migration.rs"],
     [("asset registry", "pallets/asset-registry/src/migration.rs:v2"), ("lists", "pallets/transaction-pause/src/migration.rs:v1, pallets/collator-rewards/src/migration.rs:v1, pallets/duster/src/migration.rs:v1"), ("collections", "pallets/nft/src/migration.rs:v1"), ("democracy", "pallets/democracy/src/migrations/v1.rs, unlock_and_unreserve_all_funds.rs"), ("codes", "pallets/referrals/src/migration.rs:preregister_parachain_codes")])
