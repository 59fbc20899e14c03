//! Every public function of the math crate, with any input at all: it answers or refuses, it never panics.
use hydra_dx_math::{dynamic_fees, ema, fee, fraction, lbp, liquidity_mining as lm, omnipool as op, omnipool_subpools as sub, rate_limiter as rl, stableswap as ss, staking, xyk};
use hydra_dx_math::dynamic_fees::types::{FeeParams, OracleEntry};
use hydra_dx_math::omnipool::types::{AssetReserveState, AssetStateChange, BalanceUpdate, I129, Position};
use hydra_dx_math::omnipool_subpools::types::MigrationDetails;
use hydra_dx_math::stableswap::types::AssetReserve;
use hydra_dx_math::support::rational::{round_to_rational, round_u512_to_rational, Rounding};
use hydra_dx_math::types::{Fraction, Ratio};
use num_traits::CheckedAdd;
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;
use primitive_types::{U256, U512};
use serde::{Deserialize, Serialize};
use sp_arithmetic::{FixedU128, Perbill, Permill};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct In { f: u8, v: Vec<u128> }
struct V<'a> { v: &'a [u128], i: std::cell::Cell<usize> }
impl V<'_> {
	fn b(&self) -> u128 { let i = self.i.get(); self.i.set(i + 1); self.v[i % self.v.len()] }
	fn u32(&self) -> u32 { let x = self.b(); if x < 1 << 64 { x as u32 } else { u32::MAX - (x >> 96) as u32 } }
	fn idx(&self) -> usize { (self.b() % 7) as usize }
	fn permill(&self) -> Permill { let x = self.b(); if x < 1_000_000 { Permill::from_parts(x as u32) } else { Permill::from_parts(1_000_000 - (x % 3) as u32 * 333_333) } }
	fn fixed(&self) -> FixedU128 { FixedU128::from_inner(self.b()) }
	fn pair(&self) -> (u128, u128) { (self.b(), self.b()) }
	fn price(&self) -> ema::EmaPrice { ema::EmaPrice::new(self.b(), self.b()) }
	fn frac(&self) -> Fraction { let x = self.b(); Fraction::from_bits(x % ((1u128 << 127) + 1)) }
	fn state(&self) -> AssetReserveState<u128> { AssetReserveState { reserve: self.b(), hub_reserve: self.b(), shares: self.b(), protocol_shares: self.b() } }
	fn i129(&self) -> I129<u128> { I129 { value: self.b(), negative: self.b() % 2 == 0 } }
	fn flag(&self) -> bool { self.b() % 2 == 0 }
	fn opt<T>(&self, t: T) -> Option<T> { if self.flag() { Some(t) } else { None } }
	fn reserves(&self) -> Vec<AssetReserve> { (0..(self.b() % 6)).map(|_| AssetReserve::new(self.b(), (self.b() % 26) as u8)).collect() }
	fn rounding(&self) -> Rounding { match self.b() % 3 { 0 => Rounding::Nearest, 1 => Rounding::Down, _ => Rounding::Up } }
}
type F = (&'static str, fn(&V) -> bool);
macro_rules! fns { ($($n:literal: |$v:ident| $e:expr;)*) => { pub const FNS: &[F] = &[$(($n, |$v: &V| $e)),*]; } }
fn oe(v: &V) -> OracleEntry { OracleEntry { amount_in: v.b(), amount_out: v.b(), liquidity: v.b() } }
fn fp(v: &V) -> FeeParams<Permill> { let (a, b) = (v.permill(), v.permill()); FeeParams { min_fee: a.min(b), max_fee: a.max(b), decay: v.fixed(), amplification: v.fixed() } }
fn vol(v: &V) -> ema::EmaVolume { (v.b(), v.b(), v.b(), v.b()) }
fn pos(v: &V) -> Position<u128> { Position { amount: v.b(), shares: v.b(), price: v.pair() } }
fn md(v: &V) -> MigrationDetails { MigrationDetails { price: v.pair(), shares: v.b(), hub_reserve: v.b(), share_tokens: v.b() } }
fn bu(v: &V) -> BalanceUpdate<u128> { if v.flag() { BalanceUpdate::Increase(v.b()) } else { BalanceUpdate::Decrease(v.b()) } }
fn u256(v: &V) -> U256 { (U256::from(v.b()) << 128) | U256::from(v.b()) }
fn u512(v: &V) -> U512 { (U512::from(u256(v)) << 256) | U512::from(u256(v)) }
fns! {
	"fee": |v| fee::calculate_pool_trade_fee(v.b(), (v.u32(), v.u32())).is_some();
	"lbp spot": |v| lbp::calculate_spot_price(v.b(), v.b(), v.u32(), v.u32(), v.b()).is_ok();
	"lbp spot with fee": |v| { let f = (v.u32(), v.u32()); lbp::calculate_spot_price_with_fee(v.b(), v.b(), v.u32(), v.u32(), v.b() as u32 % 2, v.b() as u32 % 2, v.opt(f)).is_ok() };
	"lbp out": |v| lbp::calculate_out_given_in(v.b(), v.b(), v.u32(), v.u32(), v.b()).is_ok();
	"lbp in": |v| lbp::calculate_in_given_out(v.b(), v.b(), v.u32(), v.u32(), v.b()).is_ok();
	"lbp weights": |v| lbp::calculate_linear_weights(v.u32(), v.u32(), v.u32(), v.u32(), v.u32()).is_ok();
	"xyk spot": |v| xyk::calculate_spot_price(v.b(), v.b(), v.b()).is_ok();
	"xyk spot with fee": |v| { let f = (v.u32(), v.u32()); xyk::calculate_spot_price_with_fee(v.b(), v.b(), v.opt(f)).is_ok() };
	"xyk out": |v| xyk::calculate_out_given_in(v.b(), v.b(), v.b()).is_ok();
	"xyk in": |v| xyk::calculate_in_given_out(v.b(), v.b(), v.b()).is_ok();
	"xyk liquidity in": |v| xyk::calculate_liquidity_in(v.b(), v.b(), v.b()).is_ok();
	"xyk liquidity out": |v| xyk::calculate_liquidity_out(v.b(), v.b(), v.b(), v.b()).is_ok();
	"xyk shares": |v| xyk::calculate_shares(v.b(), v.b(), v.b()).is_some();
	"stable out": |v| ss::calculate_out_given_in::<128, 64>(&v.reserves(), v.idx(), v.idx(), v.b(), v.b()).is_some();
	"stable in": |v| ss::calculate_in_given_out::<128, 64>(&v.reserves(), v.idx(), v.idx(), v.b(), v.b()).is_some();
	"stable out fee": |v| ss::calculate_out_given_in_with_fee::<128, 64>(&v.reserves(), v.idx(), v.idx(), v.b(), v.b(), v.permill()).is_some();
	"stable in fee": |v| ss::calculate_in_given_out_with_fee::<128, 64>(&v.reserves(), v.idx(), v.idx(), v.b(), v.b(), v.permill()).is_some();
	"stable shares": |v| ss::calculate_shares::<128>(&v.reserves(), &v.reserves(), v.b(), v.b(), v.permill()).is_some();
	"stable shares added": |v| {
		let r = v.reserves();
		let u: Vec<_> = r.iter().map(|x| AssetReserve::new(x.amount.saturating_add(v.b()), x.decimals)).collect();
		ss::calculate_shares::<128>(&r, &u, v.b(), v.b(), v.permill()).is_some()
	};
	"stable shares for amount": |v| ss::calculate_shares_for_amount::<128>(&v.reserves(), v.idx(), v.b(), v.b(), v.b(), v.permill()).is_some();
	"stable withdraw one": |v| ss::calculate_withdraw_one_asset::<128, 64>(&v.reserves(), v.b(), v.idx(), v.b(), v.b(), v.permill()).is_some();
	"stable add one": |v| ss::calculate_add_one_asset::<128, 64>(&v.reserves(), v.b(), v.idx(), v.b(), v.b(), v.permill()).is_some();
	"stable d": |v| ss::calculate_d::<128>(&v.reserves(), v.b()).is_some();
	"stable amplification": |v| { ss::calculate_amplification(v.b(), v.b(), v.b(), v.b(), v.b()); true };
	"stable share prices": |v| ss::calculate_share_prices::<128>(&v.reserves(), v.b(), v.b()).is_some();
	"stable share price": |v| { let d = v.b(); ss::calculate_share_price::<128>(&v.reserves(), v.b(), v.b(), v.idx(), v.opt(d)).is_some() };
	"stable spot": |v| { let r: Vec<_> = v.reserves().into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect(); let f = v.permill(); ss::calculate_spot_price((v.b() % 3) as u32 * 50, r, v.b(), v.idx() as u32, v.idx() as u32 + 0, v.b(), v.b(), v.opt(f)).is_some() };
	"stable spot two": |v| { let f = v.permill(); ss::calculate_spot_price_between_two_stable_assets(&v.reserves(), v.b(), v.b(), v.idx(), v.idx(), v.opt(f)).is_some() };
	"ema new": |v| { ema::calculate_new_by_integrating_incoming((v.price(), vol(v), v.pair()), (v.price(), vol(v), v.pair()), v.frac()); true };
	"ema update": |v| { ema::update_outdated_to_current(v.u32(), (v.price(), vol(v), v.pair()), (v.price(), v.pair()), v.frac()); true };
	"ema iterated": |v| { ema::iterated_price_ema(v.u32(), v.price(), v.price(), v.frac()); ema::iterated_balance_ema(v.u32(), v.b(), v.b(), v.frac()); ema::iterated_volume_ema(v.u32(), vol(v), v.frac()); ema::iterated_liquidity_ema(v.u32(), v.pair(), v.pair(), v.frac()); true };
	"ema smoothing": |v| { ema::exp_smoothing(v.frac(), v.u32()); ema::smoothing_from_period(v.b() as u64); true };
	"ema weighted": |v| { ema::price_weighted_average(v.price(), v.price(), v.frac()); ema::balance_weighted_average(v.b(), v.b(), v.frac()); ema::volume_weighted_average(vol(v), vol(v), v.frac()); true };
	"lm loyalty": |v| lm::calculate_loyalty_multiplier(v.b() as u64, v.fixed(), v.u32()).is_ok();
	"lm accumulated": |v| lm::calculate_accumulated_rps(v.fixed(), v.b(), v.b()).is_ok();
	"lm user": |v| lm::calculate_user_reward(v.fixed(), v.b(), v.b(), v.fixed(), v.fixed()).is_ok();
	"lm valued": |v| lm::calculate_valued_shares(v.b(), v.b()).is_ok();
	"lm global shares": |v| lm::calculate_global_farm_shares(v.b(), v.fixed()).is_ok();
	"lm reward": |v| lm::calculate_reward(v.fixed(), v.fixed(), v.b()).is_ok();
	"lm yield": |v| lm::calculate_yield_farm_rewards(v.fixed(), v.fixed(), v.fixed(), v.b()).is_ok();
	"lm global": |v| lm::calculate_global_farm_rewards(v.b(), v.fixed(), v.fixed(), v.b(), v.b() as u64).is_ok();
	"dynamic asset fee": |v| { dynamic_fees::recalculate_asset_fee(oe(v), v.permill(), v.b(), fp(v)); true };
	"dynamic protocol fee": |v| { dynamic_fees::recalculate_protocol_fee(oe(v), v.permill(), v.b(), fp(v)); true };
	"staking accumulated": |v| staking::calculate_accumulated_rps(v.fixed(), v.b(), v.b()).is_some();
	"staking slashed": |v| staking::calculate_slashed_points(v.b(), v.b(), v.b(), v.b() as u8, v.b()).is_some();
	"staking period": |v| { staking::calculate_period_number(std::num::NonZeroU128::new(v.b().max(1)).unwrap(), v.b()); true };
	"staking points": |v| staking::calculate_points(v.b(), v.b(), v.b() as u8, v.permill(), v.b(), Perbill::from_parts(v.u32().min(1_000_000_000)), v.b()).is_some();
	"staking sigmoid": |v| staking::sigmoid(v.b(), v.fixed(), v.u32()).is_some();
	"staking rewards": |v| staking::calculate_rewards(v.fixed(), v.fixed(), v.b()).is_some();
	"staking percentage": |v| { staking::calculate_percentage_amount(v.b(), v.fixed()); true };
	"staking total": |v| { staking::calculate_total_rewards(v.b(), v.b(), v.b()); true };
	"rate duration": |v| { rl::calculate_deferred_duration(v.u32(), v.b(), v.b()); true };
	"rate amount": |v| { rl::calculate_new_accumulated_amount(v.u32(), v.b(), v.b(), v.b(), v.u32()); true };
	"rate decay": |v| { rl::decay_accumulated_amount(v.u32(), v.b(), v.b(), v.u32()); true };
	"omnipool sell": |v| op::calculate_sell_state_changes(&v.state(), &v.state(), v.b(), v.permill(), v.permill(), v.b()).is_some();
	"omnipool sell hub": |v| op::calculate_sell_hub_state_changes(&v.state(), v.b(), v.permill(), v.i129(), v.b()).is_some();
	"omnipool buy hub": |v| op::calculate_buy_for_hub_asset_state_changes(&v.state(), v.b(), v.permill(), v.i129(), v.b()).is_some();
	"omnipool buy": |v| op::calculate_buy_state_changes(&v.state(), &v.state(), v.b(), v.permill(), v.permill(), v.b()).is_some();
	"omnipool add": |v| op::calculate_add_liquidity_state_changes(&v.state(), v.b(), v.i129(), v.b()).is_some();
	"omnipool fee": |v| { op::calculate_withdrawal_fee(v.fixed(), v.fixed(), v.permill()); true };
	"omnipool remove": |v| op::calculate_remove_liquidity_state_changes(&v.state(), v.b(), &pos(v), v.i129(), v.b(), v.fixed()).is_some();
	"omnipool tvl": |v| op::calculate_tvl(v.b(), v.pair()).is_some();
	"omnipool imbalance": |v| op::calculate_delta_imbalance(v.b(), v.i129(), v.b()).is_some();
	"omnipool spot": |v| { let f = (v.permill(), v.permill()); op::calculate_spot_price(&v.state(), &v.state(), v.opt(f)).is_some() };
	"omnipool hub spot": |v| { let f = v.permill(); op::calculate_lrna_spot_price(&v.state(), v.opt(f)).is_some() };
	"omnipool cap": |v| op::calculate_cap_difference(&v.state(), v.b(), v.b()).is_some();
	"omnipool tvl cap": |v| op::calculate_tvl_cap_difference(&v.state(), &v.state(), v.b(), v.b()).is_some();
	"omnipool verify cap": |v| op::verify_asset_cap(&v.state(), v.b(), v.b(), v.b()).is_some();
	"subpool position": |v| sub::convert_position(pos(v), md(v)).is_some();
	"subpool initial": |v| sub::create_subpool_initial_state(&v.state(), &v.state()).is_some();
	"subpool migration": |v| { let s = v.state(); sub::calculate_asset_migration_details(&v.state(), v.opt(&s), v.b()).is_some() };
	"subpool protocol": |v| sub::recalculate_protocol_shares(v.b(), v.b(), v.b()).is_some();
	"omnipool delta": |v| v.state().delta_update(&AssetStateChange { delta_reserve: bu(v), delta_hub_reserve: bu(v), delta_shares: bu(v), delta_protocol_shares: bu(v) }).is_some();
	"omnipool balances": |v| { let (x, y) = (bu(v), bu(v)); CheckedAdd::checked_add(&x, &y); x.merge(y).is_some() };
	"ratio": |v| { let (x, y) = (Ratio::new(v.b(), v.b()), Ratio::new_unchecked(v.b(), v.b())); let _ = (x.cmp(&y), y.partial_cmp(&x), x.inverted(), y.inverted(), x.is_one(), y.is_zero(), <(u128, u128)>::from(y)); true };
	"fraction": |v| { let f = v.frac(); fraction::to_fixed(f); fraction::to_rational(f); fraction::multiply_by_balance(f, v.b()); fraction::multiply_by_fixed(f, v.fixed()); true };
	"fraction frac": |v| { let (n, d) = v.pair(); fraction::frac(n.min(d), d.max(1)); true };
	"fraction fixed": |v| { fraction::from_fixed(FixedU128::from_inner(v.b() % 1_000_000_000_000_000_001)); true };
	"rational": |v| { round_to_rational((u256(v), u256(v)), v.rounding()); round_u512_to_rational((u512(v), u512(v)), v.rounding()); true };
}
fn word() -> BoxedStrategy<u128> {
	prop_oneof![6 => any_u128(), 3 => mag(0, 1 << 90), 2 => (0u128..=7), 1 => Just(u128::MAX), 1 => (0u128..=3).prop_map(|x| u128::MAX - x), 2 => 0u128..=1_000_000, 1 => (0u32..128).prop_map(|s| 1u128 << s)].boxed()
}
pub fn c53(c: &mut Ctx) {
	c.assume("shares and fractions of one are valid values of their types; stable pools use the iteration counts of the runtime (128, 64)");
	c.check("total", "any public function with any input, biased to zero, one and the top of the range; non-trivial: it returned a value", 4_000_000, 60_000_000,
		|| (0..FNS.len() as u8, prop_oneof![6 => proptest::collection::vec(word(), 16), 1 => proptest::collection::vec(word(), 2), 2 => proptest::collection::vec(mag(0, 1 << 60), 16), 2 => proptest::collection::vec(mag(1 << 20, 1 << 90), 16)]).prop_map(|(f, v)| In { f, v }),
		|i, m| {
			let (n, f) = FNS[i.f as usize];
			let v = V { v: &i.v, i: Default::default() };
			let ok = no_panic(|| f(&v)).map_err(|e| format!("{n}: {e}"))?;
			if ok { m.nontrivial(); m.label(n); }
			Ok(())
		});
}

/// subpool conversions against exact quotients
pub fn subpools(c: &mut Ctx) {
	let q = |x: u128, y: u128, d: u128| if d == 0 { None } else { small(b(x) * b(y) / b(d)) };
	// the same ratio, at most one part in 2^126 away when it had to be shortened
	let ratio = |(n, d): (u128, u128), en: U1024, ed: U1024| -> Res {
		let shift = en.bits().max(ed.bits()).saturating_sub(128);
		if shift == 0 { ensure_that!(b(n) == en && b(d) == ed, "price {n}/{d} is not {en}/{ed}"); return Ok(()) }
		ensure_that!(b(n) == (en >> shift).max(if en.is_zero() { b(0) } else { b(1) }) && b(d) == (ed >> shift).max(b(1)), "price {n}/{d} is not {en}/{ed} shortened to 128 bits");
		Ok(())
	};
	c.check("subpools", "positions and assets moved into a subpool; non-trivial: a conversion was made", 150_000, 2_000_000,
		|| (proptest::collection::vec(word(), 16), proptest::collection::vec(mag(1 << 20, 1 << 100), 16), any::<bool>()).prop_map(|(x, y, k)| if k { x } else { y }),
		|w, m| {
			let v = V { v: w, i: Default::default() };
			let (p, d) = (pos(&v), md(&v));
			let (es, ea) = (q(p.shares, d.hub_reserve, d.shares), q(p.amount, d.share_tokens, d.shares));
			let (en, ed) = (b(p.price.0) * b(d.price.1), b(p.price.1) * b(d.price.0));
			match no_panic(|| sub::convert_position(pos(&v_at(w, 0)), md(&v_at(w, 4))))? {
				None => ensure_that!(es.is_none() || ea.is_none(), "position refused"),
				Some(r) => { m.nontrivial(); ensure_eq!((Some(r.shares), Some(r.amount)), (es, ea), "position"); ratio(r.price, en, ed)?; }
			}
			let (x, y, i) = (v.state(), v.state(), v.b());
			let e = q(x.hub_reserve, x.protocol_shares, x.shares).zip(q(y.hub_reserve, y.protocol_shares, y.shares)).and_then(|(s, t)| s.checked_add(t)).zip(x.hub_reserve.checked_add(y.hub_reserve));
			let r = no_panic(|| sub::create_subpool_initial_state(&x, &y))?;
			ensure_eq!(r.map(|r| (r.reserve, r.hub_reserve, r.shares, r.protocol_shares)), e.map(|(ps, h)| (h, h, h, ps)), "initial state of a subpool");
			let Some((det, None)) = no_panic(|| sub::calculate_asset_migration_details(&x, None, i))? else { return Err("first migration".into()) };
			ensure_eq!((det.price, det.shares, det.hub_reserve, det.share_tokens), ((x.hub_reserve, x.reserve), x.shares, x.hub_reserve, x.hub_reserve), "first migration");
			let exp = (|| {
				if y.hub_reserve == 0 || x.shares == 0 { return None }
				let ps = small(b(y.shares) * b(x.hub_reserve) / b(y.hub_reserve) * b(x.protocol_shares) / b(x.shares))?;
				Some((q(x.hub_reserve, i, y.hub_reserve)?, q(x.hub_reserve, y.shares, y.hub_reserve)?, ps))
			})();
			match no_panic(|| sub::calculate_asset_migration_details(&x, Some(&y), i))? {
				// an intermediate product above 256 bits is refused as well
				None => ensure_that!(exp.is_none() || small(b(y.shares) * b(x.hub_reserve) / b(y.hub_reserve)).is_none(), "migration refused"),
				Some((det, ch)) => {
					m.label("migration");
					let Some((du, ds, ps)) = exp else { return Err("migration of what cannot be computed".into()) };
					ensure_eq!((det.shares, det.hub_reserve, det.share_tokens), (x.shares, x.hub_reserve, du), "migration");
					ratio(det.price, b(x.hub_reserve) * b(i), b(x.reserve) * b(y.shares))?;
					let ch = ch.ok_or("no change of the subpool")?;
					use BalanceUpdate::Increase as I;
					ensure_that!(ch.delta_reserve == I(du) && ch.delta_hub_reserve == I(x.hub_reserve) && ch.delta_shares == I(ds) && ch.delta_protocol_shares == I(ps), "change of the subpool");
				}
			}
			Ok(())
		});
}
fn v_at(v: &[u128], i: usize) -> V { V { v, i: std::cell::Cell::new(i) } }
