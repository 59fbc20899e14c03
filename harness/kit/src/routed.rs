//! What the router relies on in every pool pallet: it answers only for its own kind of pool.
use crate::*;
use hydradx_traits::router::{ExecutorError, PoolType, TradeExecution};

pub const KINDS: [PoolType<AssetId>; 4] = [PoolType::XYK, PoolType::LBP, PoolType::Stableswap(100), PoolType::Omnipool];
fn same_kind(a: &PoolType<AssetId>, b: &PoolType<AssetId>) -> bool { std::mem::discriminant(a) == std::mem::discriminant(b) }
/// Every request for another kind of pool is handed on (`NotSupported`) and changes nothing.
pub fn only_own<O, P: TradeExecution<O, u64, AssetId, u128, Error = DispatchError>>(own: PoolType<AssetId>, who: impl Fn() -> O, a: AssetId, b: AssetId, x: u128) -> Res {
	for k in KINDS.iter().filter(|k| !same_kind(k, &own)) {
		let k = *k;
		let before = state();
		macro_rules! passed_on { ($($f:ident ( $($arg:expr),* )),*) => { $(
			let r = P::$f($($arg),*);
			ensure_that!(matches!(r, Err(ExecutorError::NotSupported)), "{} for {k:?} answered {:?}", stringify!($f), r.map(|_| ()).map_err(|e| match e { ExecutorError::NotSupported => "not supported".to_string(), ExecutorError::Error(e) => format!("{e:?}") }));
		)* } }
		passed_on!(calculate_sell(k, a, b, x), calculate_buy(k, a, b, x), execute_sell(who(), k, a, b, x, 0), execute_buy(who(), k, a, b, x, u128::MAX), get_liquidity_depth(k, a, b), calculate_spot_price_with_fee(k, a, b));
		ensure_that!(state() == before, "a request for {k:?} changed the state");
	}
	Ok(())
}
/// `Ok` value or that it is refused for a reason of the pool's own.
pub fn value<T>(r: Result<T, ExecutorError<DispatchError>>) -> Result<Option<T>, String> { match r { Ok(x) => Ok(Some(x)), Err(ExecutorError::Error(_)) => Ok(None), Err(ExecutorError::NotSupported) => Err("own pool not supported".into()) } }
/// `1 / p`, rounded down to 18 decimals.
pub fn inverse(p: FixedU128) -> Option<FixedU128> { quo(b(1_000_000_000_000_000_000) * b(1_000_000_000_000_000_000), b(p.into_inner())).map(FixedU128::from_inner) }
