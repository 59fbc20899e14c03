use hydra_dx_math::omnipool::types::*;
use hydra_dx_math::omnipool::*;
use hydra_dx_math::omnipool::types::BalanceUpdate::{Decrease, Increase};
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;
use serde::{Deserialize, Serialize};
use sp_arithmetic::{FixedU128, Permill};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Asset { r: u128, h: u128, s: u128, p: u128 }
impl Asset {
	fn st(&self) -> AssetReserveState<u128> { AssetReserveState { reserve: self.r, hub_reserve: self.h, shares: self.s, protocol_shares: self.p } }
}
const T: u128 = 1_000_000_000_000;
pub fn asset() -> impl Strategy<Value = Asset> {
	(mag(1_000_000, 10 * T * T), mag(1_000_000, 10 * T * T), mag(1_000_000, 10 * T * T), 0u32..=100).prop_map(|(r, h, s, f)| Asset { r, h, s, p: s / 100 * f as u128 })
}
/// an amount related to a reserve: absolute small, or a fraction of it
fn amt(max_mult_ppm: u64) -> impl Strategy<Value = (u128, u64)> {
	(mag(1, 1_000_000), prop_oneof![3 => 1..=max_mult_ppm, 2 => 1u64..=1000, 1 => Just(0u64)])
}
fn amount_of(base: u128, a: (u128, u64)) -> u128 { if a.1 == 0 { a.0 } else { ((b(base) * b(a.1 as u128)) / b(1_000_000)).low_u128().max(1) } }
fn inc(x: BalanceUpdate<u128>) -> Result<u128, String> { match x { Increase(v) => Ok(v), Decrease(0) => Ok(0), d => Err(format!("expected an increase, got {d:?}")) } }
fn dec(x: BalanceUpdate<u128>) -> Result<u128, String> { match x { Decrease(v) => Ok(v), Increase(0) => Ok(0), d => Err(format!("expected a decrease, got {d:?}")) } }
const M: u128 = 1_000_000;

/// fee of `parts` ppm on `x` is within [floor, ceil]
fn fee_is(fee: u128, parts: u32, x: u128) -> bool {
	let e = b(x) * b(parts as u128);
	let f = b(fee) * b(M);
	f <= e + b(M - 1) && f + b(M - 1) >= e
}

pub fn c01(c: &mut Ctx) {
	c.assume("reserves, hub reserves and shares between 1e6 and 1e25; fees 0..=100% (success is required only below 50%)");
	c.check("sell", "asset sell on generated two-asset states; non-trivial: returns a trade with a positive amount out", 400_000, 8_000_000,
		|| (asset(), asset(), amt(3_000_000), permill_parts(), permill_parts(), mag(0, T * T)),
		|(i, o, a, af, pf, imb), m| {
			let a = amount_of(i.r, *a);
			let r = calculate_sell_state_changes(&i.st(), &o.st(), a, Permill::from_parts(*af), Permill::from_parts(*pf), *imb);
			let Some(t) = r else { return Err("sell refused although every quantity fits".into()) };
			let paid = inc(*&t.asset_in.delta_reserve)?;
			let hin = dec(t.asset_in.delta_hub_reserve)?;
			let out = dec(t.asset_out.delta_reserve)?;
			let hout = inc(t.asset_out.delta_hub_reserve)?;
			ensure_eq!(paid, a, "amount in");
			if out > 0 { m.nontrivial(); }
			if *pf > 0 && *imb > 0 { m.label("imbalance+fee"); }
			// in-leg: never more hub than the constant product allows, and not less than one unit short
			ensure_that!(b(hin) * (b(i.r) + b(a)) <= b(i.h) * b(a), "in-leg releases too much hub asset: {hin}");
			ensure_that!((b(hin) + b(1)) * (b(i.r) + b(a)) > b(i.h) * b(a), "in-leg releases too little hub asset: {hin}");
			ensure_that!(hin <= i.h, "hub reserve overdrawn");
			// hub conservation
			ensure_that!(fee_is(t.fee.protocol_fee, *pf, hin), "protocol fee {} is not {}ppm of {}", t.fee.protocol_fee, pf, hin);
			ensure_eq!(b(hin), b(hout) + b(t.fee.protocol_fee), "hub asset taken from one side is not what the other side and the fee receive");
			let di = inc(t.delta_imbalance)?;
			ensure_eq!(di, t.fee.protocol_fee.min(*imb), "imbalance repayment");
			ensure_eq!(b(t.fee.protocol_fee), b(di) + b(t.hdx_hub_amount), "fee split");
			// out-leg
			let gross_n = b(o.r) * b(hout);
			let gross_d = b(o.h) + b(hout);
			ensure_that!(b(out) * gross_d <= gross_n, "out-leg pays more than the constant product allows");
			let comp = b(M - *af as u128);
			ensure_that!(b(out) * gross_d * b(M) <= gross_n * comp, "asset fee not fully charged: out={out}");
			ensure_that!((b(out) + b(2)) * gross_d * b(M) >= gross_n * comp, "trader receives too little: out={out}");
			ensure_that!((b(out) + b(t.fee.asset_fee)) * gross_d <= gross_n && (b(out) + b(t.fee.asset_fee) + b(1)) * gross_d > gross_n, "asset fee {} + out {} is not the gross amount", t.fee.asset_fee, out);
			// invariants
			ensure_that!((b(i.r) + b(a)) * (b(i.h) - b(hin)) >= b(i.r) * b(i.h), "product of the sold asset decreased");
			ensure_that!((b(o.r) - b(out)) * (b(o.h) + b(hout)) >= b(o.r) * b(o.h), "product of the bought asset decreased");
			ensure_that!(t.asset_in.delta_shares == BalanceUpdate::default() && t.asset_out.delta_shares == BalanceUpdate::default(), "trade changes shares");
			Ok(())
		});
	c.check("buy", "asset buy on generated two-asset states; non-trivial: the buy is possible", 400_000, 8_000_000,
		|| (asset(), asset(), amt(900_000), permill_parts(), permill_parts(), mag(0, T * T)),
		|(i, o, a, af, pf, imb), m| {
			let a = amount_of(o.r, *a);
			let (afee, pfee) = (Permill::from_parts(*af), Permill::from_parts(*pf));
			let r = calculate_buy_state_changes(&i.st(), &o.st(), a, afee, pfee, *imb);
			// exact requirement: hub needed on the out side, hub taken on the in side
			let comp = M - *af as u128;
			let r_nf = b(o.r) * b(comp) / b(M);
			let feasible_out = r_nf > b(a);
			let Some(t) = r else {
				m.label("refused");
				if !feasible_out || *pf == 1_000_000 { return Ok(()); }
				let need = b(o.h) * b(a) / (r_nf - b(a)) + b(3);
				let need_in = need * b(M) / b(M - *pf as u128) + b(2);
				// refused for lack of hub asset, or the result does not fit
				let big = need_in >= b(i.h) || b(i.r) * need_in / (b(i.h) - need_in) + b(2) > b(u128::MAX) || need > b(u128::MAX / M);
				ensure_that!(big, "buy refused although it is possible");
				return Ok(());
			};
			m.nontrivial();
			let paid = inc(t.asset_in.delta_reserve)?;
			let hin = dec(t.asset_in.delta_hub_reserve)?;
			let out = dec(t.asset_out.delta_reserve)?;
			let hout = inc(t.asset_out.delta_hub_reserve)?;
			ensure_eq!(out, a, "amount out");
			ensure_that!(feasible_out, "buy granted beyond the reserve");
			// out leg: (R(1-f) - a) * hout >= H * a   (fee charged in full)
			let rn = b(o.r) * b(comp); // R(1-f) * M
			ensure_that!((rn - b(a) * b(M)) * b(hout) >= b(o.h) * b(a) * b(M), "buyer does not pay the full price with fee: hout={hout}");
			ensure_that!(b(hout) <= b(o.h) * b(a) / (r_nf - b(a)) + b(1), "buyer overpays on the out leg: hout={hout}");
			ensure_that!((b(o.r) - b(a)) * (b(o.h) + b(hout)) >= b(o.r) * b(o.h), "product of the bought asset decreased");
			// protocol fee leg
			ensure_that!(b(hin) * b(M) <= b(hout) * b(M) * b(M) / b(M - *pf as u128) + b(M), "too much hub asset taken: {hin} for {hout}");
			ensure_that!(fee_is(t.fee.protocol_fee, *pf, hin), "protocol fee");
			ensure_that!(b(hin) >= b(hout) + b(t.fee.protocol_fee), "hub asset created: in {hin} out {hout} fee {}", t.fee.protocol_fee);
			ensure_that!(b(hin) <= b(hout) + b(t.fee.protocol_fee) + b(1), "hub asset lost: in {hin} out {hout} fee {}", t.fee.protocol_fee);
			let di = inc(t.delta_imbalance)?;
			ensure_eq!(di, t.fee.protocol_fee.min(*imb), "imbalance repayment");
			ensure_eq!(b(t.fee.protocol_fee), b(di) + b(t.hdx_hub_amount), "fee split");
			// in leg
			ensure_that!(hin < i.h, "hub reserve overdrawn");
			ensure_that!((b(i.r) + b(paid)) * (b(i.h) - b(hin)) >= b(i.r) * b(i.h), "product of the sold asset decreased: paid={paid}");
			ensure_that!(b(paid) <= b(i.r) * b(hin) / (b(i.h) - b(hin)) + b(1), "buyer overpays on the in leg: {paid}");
			// asset fee reported: a*f/(1-f), rounded up
			let f = b(*af as u128) * b(a);
			ensure_that!(b(t.fee.asset_fee) * b(comp) >= f && (*af == 0 && t.fee.asset_fee == 0 || b(t.fee.asset_fee) * b(comp) <= f + b(comp)), "asset fee {} for {a}", t.fee.asset_fee);
			// metamorphic: selling what the buyer paid yields at least (within a unit of flooring) what was bought
			if let Some(s) = calculate_sell_state_changes(&i.st(), &o.st(), paid, afee, pfee, *imb) {
				let so = dec(s.asset_out.delta_reserve)?;
				ensure_that!(so.saturating_add(1) >= a, "buying {a} costs {paid}, selling that returns only {so}");
			}
			Ok(())
		});
	c.check("sell_then_sell_back", "sell, apply the change, sell the proceeds back; non-trivial: both trades move something", 200_000, 4_000_000,
		|| (asset(), asset(), amt(3_000_000), permill_parts(), permill_parts()),
		|(i, o, a, af, pf), m| {
			let a = amount_of(i.r, *a);
			let (af, pf) = (Permill::from_parts(*af), Permill::from_parts(*pf));
			let Some(t) = calculate_sell_state_changes(&i.st(), &o.st(), a, af, pf, 0) else { return Ok(()) };
			let out = dec(t.asset_out.delta_reserve)?;
			let (Some(i2), Some(o2)) = (i.st().delta_update(&t.asset_in), o.st().delta_update(&t.asset_out)) else { return Err("state update failed".into()) };
			ensure_eq!(b(i2.reserve), b(i.r) + b(a), "updated reserve");
			if out == 0 { return Ok(()) }
			let Some(t2) = calculate_sell_state_changes(&o2, &i2, out, af, pf, 0) else { return Err("sell back refused".into()) };
			let back = dec(t2.asset_out.delta_reserve)?;
			if back > 0 { m.nontrivial(); }
			ensure_that!(back <= a, "round trip profits: paid {a} got back {back}");
			Ok(())
		});
	c.check("hub_sell_buy", "trades paid in the hub asset; non-trivial: positive amount out", 300_000, 6_000_000,
		|| (asset(), amt(3_000_000), amt(900_000), permill_parts(), mag(0, T * T), mag(0, 30 * T * T)),
		|(o, ain, aout, af, imb_raw, other_hub), m| {
			let total = o.h + other_hub;
			let imbv = (*imb_raw).min(total);
			let imb = I129 { value: imbv, negative: true };
			let fee = Permill::from_parts(*af);
			let comp = M - *af as u128;
			let check_imb = |di: u128, dq: u128| -> Res {
				// burn at least dq*(q-l)/(q+dq) + dq, overestimated by at most 1
				let q = b(total);
				let n = b(dq) * (q - b(imbv)) + b(dq) * (q + b(dq));
				let d = q + b(dq);
				ensure_that!(b(di) * d >= n && (b(di) - b(1)) * d <= n, "imbalance change {di} for hub amount {dq}");
				Ok(())
			};
			let a = amount_of(o.h, *ain);
			let Some(t) = calculate_sell_hub_state_changes(&o.st(), a, fee, imb, total) else { return Err("hub sell refused".into()) };
			let out = dec(t.asset.delta_reserve)?;
			if out > 0 { m.nontrivial(); }
			ensure_eq!(inc(t.asset.delta_hub_reserve)?, a, "hub amount in");
			let (gn, gd) = (b(o.r) * b(a), b(o.h) + b(a));
			ensure_that!(b(out) * gd * b(M) <= gn * b(comp), "hub seller receives too much: {out}");
			ensure_that!((b(out) + b(2)) * gd * b(M) >= gn * b(comp), "hub seller receives too little: {out}");
			ensure_that!((b(out) + b(t.fee.asset_fee)) * gd <= gn && (b(out) + b(t.fee.asset_fee) + b(1)) * gd > gn, "asset fee");
			ensure_that!((b(o.r) - b(out)) * gd >= b(o.r) * b(o.h), "product decreased");
			check_imb(dec(t.delta_imbalance)?, a)?;
			// buy
			let want = amount_of(o.r, *aout);
			let rnf = b(o.r) * b(comp) / b(M);
			match calculate_buy_for_hub_asset_state_changes(&o.st(), want, fee, imb, total) {
				None => {
					m.label("buy_refused");
					let ok = rnf <= b(want) || b(o.h) * b(want) / (rnf - b(want)) + b(2) >= b(u128::MAX >> 2);
					ensure_that!(ok, "hub buy refused although possible");
				}
				Some(t) => {
					ensure_eq!(dec(t.asset.delta_reserve)?, want, "amount out");
					let hin = inc(t.asset.delta_hub_reserve)?;
					ensure_that!(rnf > b(want), "granted beyond the reserve");
					ensure_that!((b(o.r) * b(comp) - b(want) * b(M)) * b(hin) >= b(o.h) * b(want) * b(M), "hub buyer pays too little: {hin}");
					ensure_that!(b(hin) <= b(o.h) * b(want) / (rnf - b(want)) + b(1), "hub buyer pays too much: {hin}");
					ensure_that!((b(o.r) - b(want)) * (b(o.h) + b(hin)) >= b(o.r) * b(o.h), "product decreased");
					check_imb(dec(t.delta_imbalance)?, hin)?;
					let f = b(*af as u128) * b(want);
					ensure_that!(b(t.fee.asset_fee) * b(comp) >= f && (*af == 0 && t.fee.asset_fee == 0 || b(t.fee.asset_fee) * b(comp) <= f + b(comp)), "asset fee");
				}
			}
			Ok(())
		});
	c.check("monotone", "a larger sale never yields less, a larger purchase never costs less; non-trivial: the two amounts differ", 200_000, 4_000_000,
		|| (asset(), asset(), amt(2_000_000), amt(1_000_000), permill_parts(), permill_parts()),
		|(i, o, a, d, af, pf), m| {
			let (af, pf) = (Permill::from_parts(*af), Permill::from_parts(*pf));
			let a1 = amount_of(i.r, *a);
			let a2 = a1 + amount_of(i.r, *d);
			m.nontrivial();
			let (Some(x), Some(y)) = (calculate_sell_state_changes(&i.st(), &o.st(), a1, af, pf, 0), calculate_sell_state_changes(&i.st(), &o.st(), a2, af, pf, 0)) else { return Err("refused".into()) };
			ensure_that!(dec(y.asset_out.delta_reserve)? >= dec(x.asset_out.delta_reserve)?, "selling {a2} yields less than selling {a1}");
			let w1 = amount_of(o.r / 2, *a).min(o.r / 2);
			let w2 = w1 + amount_of(o.r / 4, *d);
			if let Some(y) = calculate_buy_state_changes(&i.st(), &o.st(), w2, af, pf, 0) {
				let Some(x) = calculate_buy_state_changes(&i.st(), &o.st(), w1, af, pf, 0) else { return Err(format!("buying {w2} possible but {w1} not")) };
				ensure_that!(inc(y.asset_in.delta_reserve)? >= inc(x.asset_in.delta_reserve)?, "buying {w2} costs less than {w1}");
			}
			Ok(())
		});
}

pub fn c02(c: &mut Ctx) {
	c.assume("reserves, hub reserves and shares between 1e6 and 1e25; position prices within 1e6x of the current price");
	let imb = |v: u128| I129 { value: v, negative: true };
	c.check("add", "add liquidity; non-trivial: shares are minted", 300_000, 6_000_000,
		|| (asset(), amt(5_000_000), mag(0, T * T), mag(0, 30 * T * T)),
		|(s, a, imbv, other), m| {
			let a = amount_of(s.r, *a);
			let total = s.h + other;
			let r = calculate_add_liquidity_state_changes(&s.st(), a, imb(*imbv), total);
			// the only reasons to refuse: price not representable or results too large
			let Some(t) = r else {
				let fits = b(s.h) * e18() / b(s.r) < b(u128::MAX) && b(s.s) * b(a) / b(s.r) <= b(u128::MAX) && b(s.h) * b(a) / b(s.r) <= b(u128::MAX);
				ensure_that!(!fits, "add liquidity refused"); return Ok(());
			};
			let dh = inc(t.asset.delta_hub_reserve)?;
			let ds = inc(t.asset.delta_shares)?;
			ensure_eq!(inc(t.asset.delta_reserve)?, a, "reserve");
			if ds > 0 { m.nontrivial(); }
			// hub minted at the pool price, never above it
			ensure_that!(b(dh) * b(s.r) <= b(s.h) * b(a), "hub asset minted above the pool price");
			ensure_that!((b(dh) + b(2) + b(a) / e18()) * b(s.r) >= b(s.h) * b(a), "hub asset minted below the pool price: {dh}");
			// shares pro rata, never diluting
			ensure_that!(b(ds) * b(s.r) <= b(s.s) * b(a), "too many shares: {ds}");
			ensure_that!((b(ds) + b(1)) * b(s.r) > b(s.s) * b(a), "too few shares: {ds}");
			ensure_eq!(t.asset.delta_protocol_shares, BalanceUpdate::default(), "protocol shares");
			let di = dec(t.delta_imbalance)?;
			if *imbv > 0 { m.label("imbalance"); }
			ensure_that!(b(di) * b(total) <= b(dh) * b(*imbv) && (b(di) + b(1)) * b(total) > b(dh) * b(*imbv), "imbalance change {di}");
			ensure_eq!(t.lp_hub_amount, 0, "lp hub amount");
			Ok(())
		});
	c.check("remove", "remove liquidity with positions opened above/below/at the current price and withdrawal fees; non-trivial: something is paid out", 300_000, 6_000_000,
		|| (asset(), mag(1, T * T), mag(1, T * T), 1u64..=1_000_000, 1u64..=1_000_000, prop_oneof![2 => Just((1u64, 1u64)), 6 => (1u64..=1_000_000, 1u64..=1_000_000), 4 => (999_000u64..=1_001_000, 1_000_000u64..=1_000_000)], prop_oneof![2 => Just(0u128), 2 => Just(E18), 4 => mag(0, E18)], mag(0, T * T), mag(0, 30 * T * T)),
		|(s, pos_amount, _x, own_ppm, part_ppm, (pn, pd), wfee, imbv, other), m| {
			// the position owns a part of the pool's shares, a part of which is withdrawn
			let own = (b(s.s - s.p) * b(*own_ppm as u128) / b(M)).low_u128().max(1).min(s.s);
			let rem = (b(own) * b(*part_ppm as u128) / b(M)).low_u128().max(1);
			let price = ((b(s.h) * b(*pn as u128)).low_u128(), (b(s.r) * b(*pd as u128)).low_u128());
			if b(s.h) * b(*pn as u128) > b(u128::MAX) || b(s.r) * b(*pd as u128) > b(u128::MAX) { return Ok(()) }
			let pos = Position { amount: *pos_amount, shares: own, price };
			let total = s.h + other;
			let r = calculate_remove_liquidity_state_changes(&s.st(), rem, &pos, imb(*imbv), total, FixedU128::from_inner(*wfee));
			let (pr_n, pr_d) = (b(s.h) * b(*pn as u128) , b(*pd as u128)); // p*R = pr_n/pr_d
			let Some(t) = r else {
				let p_fits = b(price.0) * e18() / b(price.1) * b(s.r) / e18() < b(u128::MAX) && b(price.0) * e18() / b(price.1) <= b(u128::MAX) && b(s.h) * e18() / b(s.r) <= b(u128::MAX);
				// precision guard: the position price rounds to a value where nothing is left to pay
				let tiny = rem <= 2 || b(price.0) * e18() / b(price.1) < b(1_000_000);
				ensure_that!(!p_fits || tiny, "remove liquidity refused");
				return Ok(());
			};
			let dr = dec(t.asset.delta_reserve)?;
			let dh = dec(t.asset.delta_hub_reserve)?;
			let ds = dec(t.asset.delta_shares)?;
			let db = inc(t.asset.delta_protocol_shares)?;
			if dr > 0 { m.nontrivial(); }
			let cmp = (*pn).cmp(pd);
			m.label(match cmp { std::cmp::Ordering::Less => "price_up", std::cmp::Ordering::Equal => "price_same", _ => "price_down" });
			// every removed share is either burned or goes to the protocol
			ensure_eq!(b(ds) + b(db), b(rem), "shares");
			ensure_eq!(dec(t.delta_position_shares)?, rem, "position shares");
			ensure_that!({ let p = dec(t.delta_position_reserve)?; b(p) * b(own) <= b(rem) * b(*pos_amount) && (b(p) + b(1)) * b(own) > b(rem) * b(*pos_amount) }, "position amount");
			// interval for p*R from the fixed-point price (floored at 1e-18), plus one
			let exact = pr_n / pr_d;
			let slack = b(s.r) / e18() + b(2);
			let lo = if exact > slack { exact - slack } else { b(0) };
			let hi = exact + b(2);
			let q = b(s.h);
			let shares_for = |pr: U1024| if pr > q { (pr - q) * b(rem) / (pr + q) } else { b(0) };
			ensure_that!(b(db) + b(1) >= shares_for(lo), "protocol takes too few shares: {db}");
			ensure_that!(b(db) <= shares_for(hi) + b(1), "protocol takes too many shares: {db}");
			let comp = E18 - *wfee;
			// pro-rata reserve less fee
			ensure_that!(b(dr) * b(s.s) * e18() <= b(s.r) * b(ds) * b(comp), "withdraws more than the share of the reserve: {dr}");
			ensure_that!((b(dr) + b(2)) * b(s.s) * e18() >= b(s.r) * b(ds) * b(comp), "withdraws less than due: {dr}");
			ensure_that!(b(dh) * b(s.s) * e18() <= b(s.h) * b(ds) * b(comp), "removes more than the share of the hub reserve: {dh}");
			ensure_that!((b(dh) + b(3) + b(s.h) / b(s.r)) * b(s.s) * e18() >= b(s.h) * b(ds) * b(comp), "removes less hub asset than due: {dh}");
			ensure_that!(dr <= s.r && dh <= s.h, "overdrawn");
			// hub asset paid to the provider when the price went up: Q (Q - pR)/(Q + pR) ds/S (1-fee)
			let lp = |pr: U1024| if pr < q { q * (q - pr) / (q + pr) * b(ds) * b(comp) / (b(s.s) * e18()) } else { b(0) };
			ensure_that!(b(t.lp_hub_amount) <= lp(lo) + b(2) , "provider receives too much hub asset: {}", t.lp_hub_amount);
			ensure_that!(b(t.lp_hub_amount) + b(4) >= lp(exact + slack), "provider receives too little hub asset: {}", t.lp_hub_amount);
			let di = inc(t.delta_imbalance)?;
			ensure_that!(b(di) * b(total) <= b(dh) * b(*imbv) && (b(di) + b(1)) * b(total) > b(dh) * b(*imbv), "imbalance change {di}");
			Ok(())
		});
	c.check("add_remove_no_profit", "add liquidity and withdraw it at once, alone in the pool state or with others; non-trivial: shares were minted", 300_000, 6_000_000,
		|| (asset(), amt(5_000_000), 1u64..=1_000_000, prop_oneof![Just(0u128), mag(0, E18)]),
		|(s, a, part, wfee), m| {
			let a = amount_of(s.r, *a);
			let Some(t) = calculate_add_liquidity_state_changes(&s.st(), a, imb(0), s.h) else { return Ok(()) };
			let ds = inc(t.asset.delta_shares)?;
			if ds == 0 { return Ok(()) }
			m.nontrivial();
			let Some(n) = s.st().delta_update(&t.asset) else { return Err("update".into()) };
			let rem = (b(ds) * b(*part as u128) / b(M)).low_u128().max(1);
			let pos = Position { amount: a, shares: ds, price: (n.hub_reserve, n.reserve) };
			let Some(w) = calculate_remove_liquidity_state_changes(&n, rem, &pos, imb(0), n.hub_reserve, FixedU128::from_inner(*wfee)) else { return Err("withdrawal refused".into()) };
			let dr = dec(w.asset.delta_reserve)?;
			ensure_that!(b(dr) * b(ds) <= b(a) * b(rem) + b(ds), "withdrew {dr} for {rem} of {ds} shares bought with {a}");
			if rem == ds { ensure_that!(dr <= a, "withdrew {dr} > contributed {a}"); }
			ensure_eq!(w.lp_hub_amount, 0, "hub asset paid although the price did not move");
			ensure_eq!(inc(w.asset.delta_protocol_shares)?, 0, "shares taken although the price did not move");
			ensure_that!(dec(w.asset.delta_hub_reserve)? <= inc(t.asset.delta_hub_reserve)?.saturating_add(2 + a / E18), "more hub asset burned than minted");
			Ok(())
		});
	c.check("withdrawal_fee", "withdrawal fee from spot and oracle price; non-trivial: strictly between the bounds", 200_000, 4_000_000,
		|| (mag(0, E18 * T), mag(0, E18 * T), permill_parts(), any::<bool>(), 0u64..=2_000_000),
		|(spot, oracle, min, near, k), m| {
			let spot = if *near { (b(*oracle) * b(*k as u128) / b(M)).low_u128() } else { *spot };
			let f = calculate_withdrawal_fee(FixedU128::from_inner(spot), FixedU128::from_inner(*oracle), Permill::from_parts(*min)).into_inner();
			let minf = *min as u128 * T;
			ensure_that!(f >= minf && f <= E18, "fee {f} outside [{minf}, 1]");
			if *oracle == 0 { ensure_eq!(f, minf, "no oracle price"); return Ok(()) }
			let d = b(spot.abs_diff(*oracle)) * e18();
			if f > minf && f < E18 { m.nontrivial(); }
			if f > minf { ensure_that!((b(f) - b(1)) * b(*oracle) <= d, "fee above the relative price difference"); }
			if f < E18 { ensure_that!((b(f) + b(1)) * b(*oracle) >= d, "fee below the relative price difference"); }
			Ok(())
		});
	c.check("delta_imbalance", "imbalance change proportional to hub change; non-trivial: non-zero imbalance", 100_000, 2_000_000,
		|| (mag(0, 10 * T * T), mag(0, 10 * T * T), mag(1, 30 * T * T), any::<bool>()),
		|(dh, v, total, neg), m| {
			let r = calculate_delta_imbalance(*dh, I129 { value: *v, negative: *neg }, *total);
			if *v == 0 { ensure_eq!(r, Some(0), "zero imbalance"); return Ok(()) }
			m.nontrivial();
			if !*neg { ensure_eq!(r, None, "positive imbalance is unsupported"); return Ok(()) }
			let e = b(*dh) * b(*v) / b(*total);
			ensure_eq!(r, small(e), "imbalance");
			Ok(())
		});
}

pub fn c03(c: &mut Ctx) {
	crate::total::subpools(c);
	c.check("spot_price", "spot price with and without fees against the exact rational; non-trivial: positive price", 300_000, 6_000_000,
		|| (asset(), asset(), proptest_option(), permill_parts(), permill_parts()),
		|(x, y, with_fee, pf, af), m| {
			let fee = if *with_fee { Some((Permill::from_parts(*pf), Permill::from_parts(*af))) } else { None };
			let (fp, fa) = if *with_fee { (M - *pf as u128, M - *af as u128) } else { (M, M) };
			let r = calculate_spot_price(&x.st(), &y.st(), fee);
			let num = b(x.h) * b(y.r) * b(fp) * b(fa) * e18();
			let den = b(x.r) * b(y.h) * b(M) * b(M);
			let e = num / den;
			match r {
				None => ensure_that!(b(x.h) * b(y.r) * e18() / (b(x.r) * b(y.h)) > b(u128::MAX >> 1) || b(y.r) * e18() / b(y.h) > b(u128::MAX) || b(x.h) * e18() / b(x.r) > b(u128::MAX), "no spot price"),
				Some(p) => {
					let p = b(p.into_inner());
					if !p.is_zero() { m.nontrivial(); }
					ensure_that!(p <= e, "spot price {p} above {e}");
					// each factor is floored at 1e-18
					let pa = b(x.h) / b(x.r) + b(1);
					let pb = b(y.r) / b(y.h) + b(1);
					ensure_that!(p + pa + pb + b(4) >= e, "spot price {p} below {e}");
				}
			}
			Ok(())
		});
	c.check("spot_vs_trade", "executing a trade never beats the quoted spot price; non-trivial: positive trade output", 200_000, 4_000_000,
		|| (asset(), asset(), amt(1_000_000), permill_parts(), permill_parts()),
		|(x, y, a, pf, af), m| {
			let a = amount_of(x.r, *a);
			let (pfp, afp) = (Permill::from_parts(*pf), Permill::from_parts(*af));
			let (Some(p), Some(t)) = (calculate_spot_price(&x.st(), &y.st(), Some((pfp, afp))), calculate_sell_state_changes(&x.st(), &y.st(), a, afp, pfp, 0)) else { return Ok(()) };
			let out = dec(t.asset_out.delta_reserve)?;
			if out > 0 { m.nontrivial(); }
			// out/a <= exact spot (price floor slack)
			let slack = b(x.h) / b(x.r) + b(y.r) / b(y.h) + b(6);
			// one unit of protocol-fee flooring may be worth up to R_out/H_out
			let unit = b(y.r) / b(y.h) + b(2);
			ensure_that!((b(out) * e18()) <= (b(p.into_inner()) + slack) * b(a) + unit * e18(), "trade at better than spot: out={out} in={a} price={p:?}");
			Ok(())
		});
	c.check("lrna_spot_price", "hub asset spot price; non-trivial: positive", 150_000, 3_000_000,
		|| (asset(), proptest_option(), permill_parts()),
		|(x, wf, af), m| {
			let r = calculate_lrna_spot_price(&x.st(), if *wf { Some(Permill::from_parts(*af)) } else { None });
			let f = if *wf { M - *af as u128 } else { M };
			let e = b(x.r) * b(f) * e18() / (b(x.h) * b(M));
			match r {
				None => ensure_that!(b(x.r) * e18() / b(x.h) > b(u128::MAX), "no price"),
				Some(p) => { let p = b(p.into_inner()); if !p.is_zero() { m.nontrivial(); } ensure_that!(p <= e && p + b(2) >= e, "hub price {p} vs {e}"); }
			}
			Ok(())
		});
	c.check("caps", "weight cap check and remaining room; non-trivial: cap strictly between 0 and 1", 300_000, 6_000_000,
		|| (asset(), mag(0, E18), mag(0, 10 * T * T), mag(0, 30 * T * T), any::<bool>(), -3i64..=3),
		|(x, cap, hub, other, near, off), m| {
			let total = x.h + other;
			// `near`: put the cap right at the resulting weight
			let cap = if *near { let w = (b(x.h) + b(*hub)) * e18() / (b(total) + b(*hub)); (w.low_u128() as i128 + *off as i128).max(0) as u128 } else { *cap };
			if cap > 0 && cap < E18 { m.nontrivial(); }
			let Some(ok) = verify_asset_cap(&x.st(), cap, *hub, total) else { return Err("cap check failed".into()) };
			let (n, d) = ((b(x.h) + b(*hub)) * e18(), b(total) + b(*hub));
			if n <= b(cap) * d { ensure_that!(ok, "weight within the cap refused"); }
			if n >= (b(cap) + b(1)) * d { ensure_that!(!ok, "weight above the cap accepted"); }
			let r = calculate_cap_difference(&x.st(), cap, total);
			let max = b(cap) * b(total) / e18();
			match r {
				None => ensure_that!(max.is_zero() || b(x.h) * e18() / max > b(u128::MAX), "no cap difference"),
				Some(v) => {
					if b(x.h) > max { ensure_that!(b(v) <= b(x.r) / e18() + b(1), "room left although above the cap: {v}"); }
					else {
						let e = b(x.r) * (max - b(x.h)) / max;
						ensure_that!(b(v) <= e + b(2) + b(x.r) / e18() && b(v) + b(2) + b(x.r) / e18() >= e, "cap room {v} vs {e}");
					}
				}
			}
			Ok(())
		});
	c.check("tvl", "total value and TVL cap room; non-trivial: room left", 200_000, 4_000_000,
		|| (asset(), asset(), mag(0, 100 * T * T), mag(0, 30 * T * T)),
		|(x, st, cap, other), m| {
			let total = x.h + st.h + other;
			ensure_eq!(calculate_tvl(total, (st.r, st.h)), small(b(total) * b(st.r) / b(st.h)), "tvl");
			let r = calculate_tvl_cap_difference(&x.st(), &st.st(), *cap, total);
			let max = b(*cap) * b(st.h) / b(st.r);
			if max < b(total) { ensure_eq!(r, Some(0), "room above the cap"); return Ok(()) }
			m.nontrivial();
			ensure_eq!(r, small((max - b(total)) * b(x.r) / b(x.h)), "tvl room");
			Ok(())
		});
	c.check("balance_update_algebra", "signed balance updates against i256 arithmetic; non-trivial: mixed signs", 200_000, 2_000_000,
		|| (any_u128(), any_u128(), any_u128(), any::<bool>(), any::<bool>()),
		|(x, y, base, sx, sy), m| {
			let mk = |v: u128, s: bool| if s { Increase(v) } else { Decrease(v) };
			if sx != sy { m.nontrivial(); }
			let (a, bb) = (mk(*x, *sx), mk(*y, *sy));
			let r = a.merge(bb);
			// model: (sign, magnitude)
			let (neg, mg) = if sx == sy { (!*sx, b(*x) + b(*y)) } else if x >= y { (!*sx, b(*x) - b(*y)) } else { (!*sy, b(*y) - b(*x)) };
			match r {
				None => ensure_that!(mg > b(u128::MAX), "merge failed"),
				Some(v) => {
					let (n2, m2) = match v { Increase(z) => (false, z), Decrease(z) => (true, z) };
					ensure_that!(b(m2) == mg && (m2 == 0 || n2 == neg), "{a:?} + {bb:?} = {v:?}");
				}
			}
			ensure_eq!(hydra_dx_math_checked_add(&a, &bb), r, "checked sum of {a:?} and {bb:?}");
			if r.is_some() { ensure_eq!(Some(a + bb), r, "sum of {a:?} and {bb:?}"); }
			ensure_eq!(*a, *x, "size of {a:?}");
			let u = a + *base;
			let e = if *sx { small(b(*base) + b(*x)) } else { base.checked_sub(*x) };
			ensure_eq!(u, e, "applying {:?} to {}", a, base);
			Ok(())
		});
}
fn hydra_dx_math_checked_add(a: &BalanceUpdate<u128>, b: &BalanceUpdate<u128>) -> Option<BalanceUpdate<u128>> { sp_arithmetic::traits::CheckedAdd::checked_add(a, b) }
fn proptest_option() -> impl Strategy<Value = bool> { any::<bool>() }
