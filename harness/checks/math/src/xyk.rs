use hydra_dx_math::fee::calculate_pool_trade_fee;
use hydra_dx_math::xyk::*;
use hydra_dx_math::MathError;
use pbt::gen::*;
use pbt::proptest::prelude::*;
use pbt::*;

fn res() -> impl Strategy<Value = u128> { prop_oneof![6 => mag(1, u128::MAX >> 1), 1 => mag(0, 1000)] }
fn fits(x: U1024) -> bool { x <= b(u128::MAX) }

pub fn c07(c: &mut Ctx) {
	c.assume("balances over the whole u128 range; a refusal is required exactly when the exact result does not exist or does not fit");
	c.check("sell", "sell on generated reserves; non-trivial: positive output", 600_000, 10_000_000, || (res(), res(), any_u128()),
		|(ri, ro, a), m| {
			match calculate_out_given_in(*ri, *ro, *a) {
				Ok(out) => {
					if out > 0 { m.nontrivial(); }
					if *a == 0 { ensure_eq!(out, 0, "nothing in"); return Ok(()) }
					let (n, d) = (b(*ro) * b(*a), b(*ri) + b(*a));
					ensure_that!(b(out) * d <= n && (b(out) + b(1)) * d > n, "out {out}");
					ensure_that!(out < *ro || *ro == 0 || *ri == 0, "drained");
					ensure_that!((b(*ri) + b(*a)) * (b(*ro) - b(out)) >= b(*ri) * b(*ro), "product decreased");
				}
				Err(e) => return Err(format!("refused: {e:?}")),
			}
			Ok(())
		});
	c.check("buy", "buy on generated reserves; non-trivial: granted", 600_000, 10_000_000, || (res(), res(), any_u128(), 0u32..=1_000_000, 0u8..4),
		|(ro, ri, a, f, k), m| {
			let a = match k { 0 => *a, 1 => ro.saturating_sub(*f as u128), _ => (b(*ro) * b(*f as u128) / b(1_000_000)).low_u128() };
			let r = calculate_in_given_out(*ro, *ri, a);
			if a == 0 { ensure_eq!(r, Ok(0), "nothing out"); return Ok(()) }
			if a > *ro { ensure_eq!(r, Err(MathError::InsufficientOutReserve), "buy above the reserve"); return Ok(()) }
			if a == *ro { ensure_that!(r.is_err(), "bought the whole reserve"); return Ok(()) }
			let e = b(*ri) * b(a) / (b(*ro) - b(a)) + b(1);
			if !fits(e) { ensure_that!(r.is_err(), "does not fit: {r:?}"); m.label("overflow"); return Ok(()) }
			m.nontrivial();
			ensure_eq!(r, Ok(e.low_u128()), "amount in");
			let cost = e;
			ensure_that!((b(*ri) + cost) * (b(*ro) - b(a)) >= b(*ri) * b(*ro), "product decreased");
			Ok(())
		});
	c.check("round_trips", "sell/buy and back: no profit; non-trivial: positive trade", 300_000, 5_000_000, || (mag(1, 1 << 120), mag(1, 1 << 120), mag(1, 1 << 120)),
		|(ri, ro, a), m| {
			let out = calculate_out_given_in(*ri, *ro, *a).map_err(|e| format!("{e:?}"))?;
			if out == 0 { return Ok(()) }
			m.nontrivial();
			let back = calculate_out_given_in(ro - out, ri + a, out).map_err(|e| format!("{e:?}"))?;
			ensure_that!(back <= *a, "sell and sell back: {a} -> {out} -> {back}");
			let need = calculate_in_given_out(*ro, *ri, out).map_err(|e| format!("{e:?}"))?;
			ensure_that!(need <= a + 1, "buying the output of a sale of {a} costs {need}");
			let again = calculate_out_given_in(*ri, *ro, need).map_err(|e| format!("{e:?}"))?;
			ensure_that!(again >= out, "paying the quoted price {need} yields {again} < {out}");
			// splitting a sale never pays more
			let h = a / 2;
			let o1 = calculate_out_given_in(*ri, *ro, h).map_err(|e| format!("{e:?}"))?;
			let o2 = calculate_out_given_in(ri + h, ro - o1, a - h).map_err(|e| format!("{e:?}"))?;
			ensure_that!(o1 + o2 <= out + 1, "split sale pays more: {o1}+{o2} > {out}");
			Ok(())
		});
	c.check("spot_price", "spot prices with and without fee; non-trivial: positive", 300_000, 5_000_000, || (res(), res(), any_u128(), prop::option::of((0u32..=2000, prop_oneof![3 => Just(1000u32), 1 => 0u32..=2000]))),
		|(ri, ro, a, fee), m| {
			let r = calculate_spot_price(*ri, *ro, *a);
			if *ri == 0 { ensure_eq!(r, Err(MathError::ZeroReserve), "zero reserve"); ensure_that!(calculate_spot_price_with_fee(0, *ro, *fee).is_err(), "zero reserve"); return Ok(()) }
			let e = b(*ro) * b(*a) / b(*ri);
			ensure_eq!(r.ok(), small(e), "spot price");
			let sp = b(*ro) * e18() / b(*ri);
			if sp > b(u128::MAX - 1) { if sp > b(u128::MAX) { ensure_that!(calculate_spot_price_with_fee(*ri, *ro, *fee).is_err(), "price out of range given"); } return Ok(()) }
			let p = calculate_spot_price_with_fee(*ri, *ro, *fee);
			match fee {
				None => { m.nontrivial(); let p = b(p.map_err(|e| format!("{e:?}"))?.into_inner()); ensure_that!(diff(p, sp) <= b(1), "spot {p} vs {sp}"); }
				Some((n, d)) => {
					if *d == 0 || n > d { ensure_that!(p.is_err(), "fee {n}/{d} accepted"); return Ok(()) }
					m.nontrivial();
					let p = b(p.map_err(|e| format!("{e:?}"))?.into_inner());
					let e = b(*ro) * e18() * b((*d - *n) as u128) / (b(*ri) * b(*d as u128));
					// each of the two factors is rounded at 1e-18
					let tol = sp / e18() + b(3);
					ensure_that!(diff(p, e) <= tol, "spot with fee {p} vs {e}");
				}
			}
			Ok(())
		});
	c.check("liquidity", "adding and removing liquidity; non-trivial: shares issued", 400_000, 8_000_000, || (res(), res(), any_u128(), res(), 0u32..=1_000_000),
		|(ra, rb, a, iss, part), m| {
			let r = calculate_liquidity_in(*ra, *rb, *a);
			if *ra == 0 { ensure_eq!(r, Err(MathError::ZeroReserve), "zero reserve"); ensure_eq!(calculate_shares(0, *a, *iss), None, "shares of an empty pool"); return Ok(()) }
			let e = if *a == 0 || *rb == 0 { b(0) } else { b(*a) * b(*rb) / b(*ra) + b(1) };
			ensure_eq!(r.ok(), small(e), "second asset required");
			let s = calculate_shares(*ra, *a, *iss);
			ensure_eq!(s, small(b(*iss) * b(*a) / b(*ra)), "shares");
			if s.unwrap_or(0) > 0 { m.nontrivial(); }
			if *iss > 0 {
				let rem = (b(*iss) * b(*part as u128) / b(1_000_000)).low_u128();
				let (x, y) = calculate_liquidity_out(*ra, *rb, rem, *iss).map_err(|e| format!("{e:?}"))?;
				ensure_eq!(b(x), b(rem) * b(*ra) / b(*iss), "asset a out");
				ensure_eq!(b(y), b(rem) * b(*rb) / b(*iss), "asset b out");
				ensure_that!(x <= *ra && y <= *rb, "overdrawn");
				let odd = calculate_liquidity_out(*ra, *rb, *a, *iss).ok();
				let (ox, oy) = (b(*a) * b(*ra) / b(*iss), b(*a) * b(*rb) / b(*iss));
				ensure_eq!(odd, if fits(ox) && fits(oy) { Some((ox.low_u128(), oy.low_u128())) } else { None }, "any amount");
			} else { ensure_eq!(calculate_liquidity_out(*ra, *rb, *a, 0), Err(MathError::ZeroReserve), "no shares"); }
			Ok(())
		});
	c.check("add_then_remove", "liquidity added and removed at once never profits and never dilutes; non-trivial: shares issued", 300_000, 5_000_000, || (mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100), mag(1, 1 << 100)),
		|(ra, rb, a, iss), m| {
			if !fits(b(*a) * b(*rb) / b(*ra) + b(*rb) + b(2)) || !fits(b(*iss) * b(*a) / b(*ra) + b(*iss)) { return Ok(()) }
			let bb = calculate_liquidity_in(*ra, *rb, *a).map_err(|e| format!("{e:?}"))?;
			let (s1, s2) = (calculate_shares(*ra, *a, *iss).ok_or("shares")?, *iss);
			if s1 == 0 { return Ok(()) }
			m.nontrivial();
			ensure_that!(b(s1) * b(*ra) <= b(s2) * b(*a), "diluted in a");
			ensure_that!(b(s1) * b(*rb) <= b(s2) * b(bb), "diluted in b");
			let (x, y) = calculate_liquidity_out(ra + a, rb + bb, s1, s1 + s2).map_err(|e| format!("{e:?}"))?;
			ensure_that!(x <= *a && y <= bb, "in {a},{bb} out {x},{y}");
			Ok(())
		});
	c.check("pool_fee", "pool trade fee for every rate; non-trivial: positive fee", 400_000, 8_000_000, || (any_u128(), prop_oneof![2 => Just((2u32, 1000u32)), 4 => (0u32..=1000, 1u32..=10_000), 2 => (any::<u32>(), any::<u32>()), 1 => Just((7u32, 7u32))]),
		|(a, (n, d)), m| {
			let r = calculate_pool_trade_fee(*a, (*n, *d));
			if *n == 0 || *d == 0 { ensure_eq!(r, Some(0), "no fee"); return Ok(()) }
			let exact = b(*a) * b(*n as u128) / b(*d as u128);
			match r {
				None => ensure_that!(exact + b(*n as u128) > b(u128::MAX), "fee refused"),
				Some(f) => {
					if f > 0 { m.nontrivial(); }
					ensure_that!(b(f) <= exact, "fee {f} above the rate, exact {exact}");
					ensure_that!(b(f) + b(*n as u128) >= exact, "fee {f} too low, exact {exact}");
					ensure_that!(n > d || f <= *a, "fee above the amount");
					if n == d { ensure_eq!(f, *a, "full fee"); }
				}
			}
			Ok(())
		});
}
