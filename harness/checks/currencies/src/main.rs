use frame_support::storage::{with_storage_layer, with_transaction_unchecked, TransactionOutcome};
use frame_support::traits::tokens::{fungible, fungibles, BalanceStatus, Fortitude, Precision, Preservation, Provenance};
use frame_support::traits::{Currency as Cur, ExistenceRequirement::AllowDeath, Imbalance, LockableCurrency, NamedReservableCurrency, ReservableCurrency, WithdrawReasons};
use frame_system::RawOrigin;
use kit::*;
use orml_traits::{BasicCurrency, BasicCurrencyExtended, BasicLockableCurrency, BasicReservableCurrency, NamedMultiReservableCurrency, TransferAll};
use pallet_currencies::{fungibles::FungibleCurrencies, BasicCurrencyAdapter, Currency, Event as E};
use std::cell::RefCell;

construct_runtime!(pub enum Test { System: frame_system, Balances: pallet_balances, Tokens: orml_tokens, Currencies: pallet_currencies });
system_config!(Test, u64, pallet_balances::AccountData<u128>);
tokens_config!(Test, Eds, White, ());
#[derive(Clone, Debug, Default)]
struct Cfg { native: u32, eds: [u128; 3], white: bool }
thread_local! { static C: RefCell<Cfg> = RefCell::new(Cfg::default()); }
fn cfg() -> Cfg { C.with(|c| c.borrow().clone()) }
pub struct Eds;
impl orml_traits::GetByKey<u32, u128> for Eds { fn get(a: &u32) -> u128 { cfg().eds[*a as usize % 3] } }
pub struct White;
impl frame_support::traits::Contains<u64> for White { fn contains(w: &u64) -> bool { cfg().white && *w == 1 } }
parameter_types! { pub NativeEd: u128 = cfg().eds[cfg().native as usize]; pub NativeId: u32 = cfg().native; pub Id0: u32 = 0; pub Id1: u32 = 1; pub Id2: u32 = 2; }
impl pallet_balances::Config for Test {
	type MaxLocks = ();
	type Balance = u128;
	type RuntimeEvent = RuntimeEvent;
	type DustRemoval = ();
	type ExistentialDeposit = NativeEd;
	type AccountStore = frame_system::Pallet<Test>;
	type WeightInfo = ();
	type MaxReserves = ConstU32<3>;
	type ReserveIdentifier = [u8; 8];
	type FreezeIdentifier = ();
	type MaxFreezes = ();
	type RuntimeHoldReason = ();
	type RuntimeFreezeReason = ();
}
impl pallet_currencies::Config for Test { type RuntimeEvent = RuntimeEvent; type MultiCurrency = Tokens; type NativeCurrency = BasicCurrencyAdapter<Test, Balances, i128, u64>; type GetNativeCurrencyId = NativeId; type WeightInfo = (); }
type P = pallet_currencies::Pallet<Test>;
type FC = FungibleCurrencies<Test>;
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum K { Transfer, Deposit, Withdraw, Slash, Update, SetLock, ExtendLock, RemoveLock, Reserve, Unreserve, SlashReserved, Repatriate, ReserveN, UnreserveN, SlashN, RepatriateN, All, CallTransfer, CallNative, CallUpdate, FMint, FBurn, FTransfer, XWrite, XIssuance, XDeactivate, XReactivate, XDust }
const KINDS: [K; 28] = [K::Transfer, K::Deposit, K::Withdraw, K::Slash, K::Update, K::SetLock, K::ExtendLock, K::RemoveLock, K::Reserve, K::Unreserve, K::SlashReserved, K::Repatriate, K::ReserveN, K::UnreserveN, K::SlashN, K::RepatriateN, K::All, K::CallTransfer, K::CallNative, K::CallUpdate, K::FMint, K::FBurn, K::FTransfer, K::XWrite, K::XIssuance, K::XDeactivate, K::XReactivate, K::XDust];
/// `adapter`: through `Currency<_, Id>` instead of the pallet itself. `flag`: sign, balance status, origin, precision.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op { k: K, adapter: bool, c: u32, w: u64, t: u64, a: A, id: u8, flag: bool, pres: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { native: u32, eds: [u128; 3], white: bool, start: Vec<(u64, u32, u128)>, ops: Vec<Op> }
fn case() -> BoxedStrategy<Case> {
	let kind = || prop_oneof![6 => (0usize..28).prop_map(|i| KINDS[i]), 3 => Just(K::Transfer), 2 => Just(K::Deposit), 2 => Just(K::Withdraw), 2 => Just(K::Reserve), 2 => Just(K::ReserveN)];
	let op = (kind(), any::<bool>(), 0u32..3, 1u64..5, 1u64..5, amt(), 0u8..3, any::<bool>(), 0u8..3).prop_map(|(k, adapter, c, w, t, a, id, flag, pres)| Op { k, adapter, c, w, t, a, id, flag, pres });
	let ed = || prop_oneof![2 => Just(1u128), 4 => 2u128..2000, 1 => mag(1, 1 << 60)];
	let bal = prop_oneof![6 => mag(1, 1 << 40), 1 => mag(1, 1 << 126), 1 => 0u128..3];
	(0u32..3, [ed(), ed(), ed()], any::<bool>(), proptest::collection::vec((1u64..5, 0u32..3, bal), 3..12), proptest::collection::vec(op, 1..25)).prop_map(|(native, eds, white, start, ops)| Case { native, eds, white, start, ops }).boxed()
}
macro_rules! by { ($c:expr, $G:ident => $e:expr) => { match $c { 0 => { type $G = Id0; $e } 1 => { type $G = Id1; $e } _ => { type $G = Id2; $e } } } }
fn pres(i: u8) -> Preservation { match i { 0 => Preservation::Expendable, 1 => Preservation::Protect, _ => Preservation::Preserve } }
fn st(f: bool) -> BalanceStatus { if f { BalanceStatus::Free } else { BalanceStatus::Reserved } }
fn fort(f: bool) -> Fortitude { if f { Fortitude::Force } else { Fortitude::Polite } }
fn prec(f: bool) -> Precision { if f { Precision::Exact } else { Precision::BestEffort } }
fn lid(i: u8) -> [u8; 8] { [i; 8] }
fn signed(a: u128, neg: bool) -> i128 { let x = a.min(i128::MAX as u128) as i128; if neg { -x } else { x } }
type Out = Result<u128, DispatchError>;
/// The operation through the pallet.
fn via(o: &Op, a: u128) -> Out {
	let (c, w, t, n) = (o.c, &o.w, &o.t, lid(o.id));
	let unit = |r: DispatchResult| r.map(|_| 0);
	let sg = || RuntimeOrigin::from(RawOrigin::Signed(o.w));
	match o.k {
		K::Transfer => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicCurrency<u64>>::transfer(w, t, a)) } else { <P as MultiCurrency<u64>>::transfer(c, w, t, a) }),
		K::Deposit => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicCurrency<u64>>::deposit(w, a)) } else { <P as MultiCurrency<u64>>::deposit(c, w, a) }),
		K::Withdraw => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicCurrency<u64>>::withdraw(w, a)) } else { <P as MultiCurrency<u64>>::withdraw(c, w, a) }),
		K::Slash => Ok(if o.adapter { by!(c, G => <Currency<Test, G> as BasicCurrency<u64>>::slash(w, a)) } else { <P as MultiCurrency<u64>>::slash(c, w, a) }),
		K::Update => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicCurrencyExtended<u64>>::update_balance(w, signed(a, o.flag))) } else { <P as MultiCurrencyExtended<u64>>::update_balance(c, w, signed(a, o.flag)) }),
		K::SetLock => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicLockableCurrency<u64>>::set_lock(n, w, a)) } else { <P as MultiLockableCurrency<u64>>::set_lock(n, c, w, a) }),
		K::ExtendLock => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicLockableCurrency<u64>>::extend_lock(n, w, a)) } else { <P as MultiLockableCurrency<u64>>::extend_lock(n, c, w, a) }),
		K::RemoveLock => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicLockableCurrency<u64>>::remove_lock(n, w)) } else { <P as MultiLockableCurrency<u64>>::remove_lock(n, c, w) }),
		K::Reserve => unit(if o.adapter { by!(c, G => <Currency<Test, G> as BasicReservableCurrency<u64>>::reserve(w, a)) } else { <P as MultiReservableCurrency<u64>>::reserve(c, w, a) }),
		K::Unreserve => Ok(if o.adapter { by!(c, G => <Currency<Test, G> as BasicReservableCurrency<u64>>::unreserve(w, a)) } else { <P as MultiReservableCurrency<u64>>::unreserve(c, w, a) }),
		K::SlashReserved => Ok(if o.adapter { by!(c, G => <Currency<Test, G> as BasicReservableCurrency<u64>>::slash_reserved(w, a)) } else { <P as MultiReservableCurrency<u64>>::slash_reserved(c, w, a) }),
		K::Repatriate => if o.adapter { by!(c, G => <Currency<Test, G> as BasicReservableCurrency<u64>>::repatriate_reserved(w, t, a, st(o.flag))) } else { <P as MultiReservableCurrency<u64>>::repatriate_reserved(c, w, t, a, st(o.flag)) },
		K::ReserveN => unit(<P as NamedMultiReservableCurrency<u64>>::reserve_named(&n, c, w, a)),
		K::UnreserveN => Ok(<P as NamedMultiReservableCurrency<u64>>::unreserve_named(&n, c, w, a)),
		K::SlashN => Ok(<P as NamedMultiReservableCurrency<u64>>::slash_reserved_named(&n, c, w, a)),
		K::RepatriateN => <P as NamedMultiReservableCurrency<u64>>::repatriate_reserved_named(&n, c, w, t, a, st(o.flag)),
		K::All => unit(<P as TransferAll<u64>>::transfer_all(w, t)),
		K::CallTransfer => unit(P::transfer(sg(), *t, c, a)),
		K::CallNative => unit(P::transfer_native_currency(sg(), *t, a)),
		K::CallUpdate => unit(P::update_balance(if o.id > 0 { RawOrigin::Root.into() } else { sg() }, *w, c, signed(a, o.flag))),
		K::FMint => <FC as fungibles::Mutate<u64>>::mint_into(c, w, a),
		K::FBurn => <FC as fungibles::Mutate<u64>>::burn_from(c, w, a, prec(o.flag), fort(o.pres > 0)),
		K::FTransfer => <FC as fungibles::Mutate<u64>>::transfer(c, w, t, a, pres(o.pres)),
		K::XWrite => <FC as fungibles::Unbalanced<u64>>::write_balance(c, w, a).map(|d| d.map_or(0, |x| x.saturating_add(1))),
		K::XIssuance => { <FC as fungibles::Unbalanced<u64>>::set_total_issuance(c, a); Ok(0) }
		K::XDeactivate => { <FC as fungibles::Unbalanced<u64>>::deactivate(c, a); Ok(0) }
		K::XReactivate => { <FC as fungibles::Unbalanced<u64>>::reactivate(c, a); Ok(0) }
		K::XDust => { <FC as fungibles::Unbalanced<u64>>::handle_dust(fungibles::Dust(c, a)); Ok(0) }
	}
}
fn native_update(w: &u64, x: i128) -> DispatchResult { if x > 0 { native_deposit(w, x as u128) } else { <Balances as Cur<u64>>::withdraw(w, x.unsigned_abs(), WithdrawReasons::all(), AllowDeath).map(|_| ()) } }
fn native_deposit(w: &u64, a: u128) -> DispatchResult { if a == 0 { return Ok(()) } let d = <Balances as Cur<u64>>::deposit_creating(w, a); if d.peek() == a { Ok(()) } else { Err(DispatchError::Other("deposit")) } }
/// The same on the store of the currency itself, with the event the pallet adds.
fn direct(o: &Op, a: u128) -> (Out, Option<E<Test>>) {
	let (c, w, t, n) = (o.c, &o.w, &o.t, lid(o.id));
	let unit = |r: DispatchResult| r.map(|_| 0);
	let nat = c == cfg().native;
	let all = WithdrawReasons::all();
	let (f, to) = (*w, *t);
	let moved = |c: u32| Some(E::Transferred { currency_id: c, from: f, to, amount: a });
	match o.k {
		K::Transfer | K::CallTransfer if a == 0 || w == t => (Ok(0), None),
		K::Transfer | K::CallTransfer => (unit(if nat { <Balances as Cur<u64>>::transfer(w, t, a, AllowDeath) } else { <Tokens as MultiCurrency<u64>>::transfer(c, w, t, a) }), moved(c)),
		K::CallNative => (unit(<Balances as Cur<u64>>::transfer(w, t, a, AllowDeath)), moved(cfg().native)),
		K::Deposit | K::Withdraw if a == 0 => (Ok(0), None),
		K::Deposit => (unit(if nat { native_deposit(w, a) } else { <Tokens as MultiCurrency<u64>>::deposit(c, w, a) }), Some(E::Deposited { currency_id: c, who: f, amount: a })),
		K::Withdraw => (unit(if nat { <Balances as Cur<u64>>::withdraw(w, a, all, AllowDeath).map(|_| ()) } else { <Tokens as MultiCurrency<u64>>::withdraw(c, w, a) }), Some(E::Withdrawn { currency_id: c, who: f, amount: a })),
		K::Slash => (Ok(if nat { <Balances as Cur<u64>>::slash(w, a).1 } else { <Tokens as MultiCurrency<u64>>::slash(c, w, a) }), None),
		K::CallUpdate if o.id == 0 => (Err(DispatchError::BadOrigin), None),
		K::Update | K::CallUpdate => { let x = signed(a, o.flag); (unit(if nat { native_update(w, x) } else { <Tokens as MultiCurrencyExtended<u64>>::update_balance(c, w, x) }), Some(E::BalanceUpdated { currency_id: c, who: f, amount: x })) }
		K::SetLock => (unit(if nat { <Balances as LockableCurrency<u64>>::set_lock(n, w, a, all); Ok(()) } else { <Tokens as MultiLockableCurrency<u64>>::set_lock(n, c, w, a) }), None),
		K::ExtendLock => (unit(if nat { <Balances as LockableCurrency<u64>>::extend_lock(n, w, a, all); Ok(()) } else { <Tokens as MultiLockableCurrency<u64>>::extend_lock(n, c, w, a) }), None),
		K::RemoveLock => (unit(if nat { <Balances as LockableCurrency<u64>>::remove_lock(n, w); Ok(()) } else { <Tokens as MultiLockableCurrency<u64>>::remove_lock(n, c, w) }), None),
		K::Reserve => (unit(if nat { <Balances as ReservableCurrency<u64>>::reserve(w, a) } else { <Tokens as MultiReservableCurrency<u64>>::reserve(c, w, a) }), None),
		K::Unreserve => (Ok(if nat { <Balances as ReservableCurrency<u64>>::unreserve(w, a) } else { <Tokens as MultiReservableCurrency<u64>>::unreserve(c, w, a) }), None),
		K::SlashReserved => (Ok(if nat { <Balances as ReservableCurrency<u64>>::slash_reserved(w, a).1 } else { <Tokens as MultiReservableCurrency<u64>>::slash_reserved(c, w, a) }), None),
		K::Repatriate => (if nat { <Balances as ReservableCurrency<u64>>::repatriate_reserved(w, t, a, st(o.flag)) } else { <Tokens as MultiReservableCurrency<u64>>::repatriate_reserved(c, w, t, a, st(o.flag)) }, None),
		K::ReserveN => (unit(if nat { <Balances as NamedReservableCurrency<u64>>::reserve_named(&n, w, a) } else { <Tokens as NamedMultiReservableCurrency<u64>>::reserve_named(&n, c, w, a) }), None),
		K::UnreserveN => (Ok(if nat { <Balances as NamedReservableCurrency<u64>>::unreserve_named(&n, w, a) } else { <Tokens as NamedMultiReservableCurrency<u64>>::unreserve_named(&n, c, w, a) }), None),
		K::SlashN => (Ok(if nat { <Balances as NamedReservableCurrency<u64>>::slash_reserved_named(&n, w, a).1 } else { <Tokens as NamedMultiReservableCurrency<u64>>::slash_reserved_named(&n, c, w, a) }), None),
		K::RepatriateN => (if nat { <Balances as NamedReservableCurrency<u64>>::repatriate_reserved_named(&n, w, t, a, st(o.flag)) } else { <Tokens as NamedMultiReservableCurrency<u64>>::repatriate_reserved_named(&n, c, w, t, a, st(o.flag)) }, None),
		K::All => (<Tokens as TransferAll<u64>>::transfer_all(w, t).and_then(|_| <Balances as Cur<u64>>::transfer(w, t, Balances::free_balance(w), AllowDeath)).map(|_| 0), None),
		K::FMint => (if nat { <Balances as fungible::Mutate<u64>>::mint_into(w, a) } else { <Tokens as fungibles::Mutate<u64>>::mint_into(c, w, a) }, None),
		K::FBurn => (if nat { <Balances as fungible::Mutate<u64>>::burn_from(w, a, prec(o.flag), fort(o.pres > 0)) } else { <Tokens as fungibles::Mutate<u64>>::burn_from(c, w, a, prec(o.flag), fort(o.pres > 0)) }, None),
		K::FTransfer => (if nat { <Balances as fungible::Mutate<u64>>::transfer(w, t, a, pres(o.pres)) } else { <Tokens as fungibles::Mutate<u64>>::transfer(c, w, t, a, pres(o.pres)) }, None),
		K::XWrite => (if nat { <Balances as fungible::Unbalanced<u64>>::write_balance(w, a) } else { <Tokens as fungibles::Unbalanced<u64>>::write_balance(c, w, a) }.map(|d| d.map_or(0, |x| x.saturating_add(1))), None),
		K::XIssuance => { if nat { <Balances as fungible::Unbalanced<u64>>::set_total_issuance(a) } else { <Tokens as fungibles::Unbalanced<u64>>::set_total_issuance(c, a) } (Ok(0), None) }
		K::XDeactivate => { if nat { <Balances as fungible::Unbalanced<u64>>::deactivate(a) } else { <Tokens as fungibles::Unbalanced<u64>>::deactivate(c, a) } (Ok(0), None) }
		K::XReactivate => { if nat { <Balances as fungible::Unbalanced<u64>>::reactivate(a) } else { <Tokens as fungibles::Unbalanced<u64>>::reactivate(c, a) } (Ok(0), None) }
		K::XDust => { if nat { <Balances as fungible::Unbalanced<u64>>::handle_dust(fungible::Dust(a)) } else { <Tokens as fungibles::Unbalanced<u64>>::handle_dust(fungibles::Dust(c, a)) } (Ok(0), None) }
	}
}
/// What an operation does, seen and then undone.
fn seen<R>(f: impl FnOnce() -> Result<R, DispatchError>) -> (Result<R, DispatchError>, Vec<RuntimeEvent>, std::collections::BTreeMap<Vec<u8>, Vec<u8>>) {
	with_transaction_unchecked(|| { System::reset_events(); let r = with_storage_layer(f); let e = take_events!(Test); let s = state(); TransactionOutcome::Rollback((r, e, s)) })
}
/// Every question the pallet answers, against the store.
fn reads(c: u32, w: u64, a: u128, i: u8) -> Res {
	let nat = c == cfg().native;
	let n = &lid(i % 3);
	let want = if nat { (NativeEd::get(), Balances::total_issuance(), Balances::total_balance(&w), Balances::free_balance(w), Balances::reserved_balance(w), <Balances as NamedReservableCurrency<u64>>::reserved_balance_named(n, &w)) } else { (Eds::get_ed(c), <Tokens as MultiCurrency<u64>>::total_issuance(c), <Tokens as MultiCurrency<u64>>::total_balance(c, &w), <Tokens as MultiCurrency<u64>>::free_balance(c, &w), <Tokens as MultiReservableCurrency<u64>>::reserved_balance(c, &w), <Tokens as NamedMultiReservableCurrency<u64>>::reserved_balance_named(n, c, &w)) };
	ensure_eq!((P::minimum_balance(c), <P as MultiCurrency<u64>>::total_issuance(c), <P as MultiCurrency<u64>>::total_balance(c, &w), <P as MultiCurrency<u64>>::free_balance(c, &w), <P as MultiReservableCurrency<u64>>::reserved_balance(c, &w), <P as NamedMultiReservableCurrency<u64>>::reserved_balance_named(n, c, &w)), want, "currency {c} of {w}: minimum, issuance, total, free, reserved, named");
	by!(c, G => ensure_eq!((<Currency<Test, G> as BasicCurrency<u64>>::minimum_balance(), <Currency<Test, G> as BasicCurrency<u64>>::total_issuance(), <Currency<Test, G> as BasicCurrency<u64>>::total_balance(&w), <Currency<Test, G> as BasicCurrency<u64>>::free_balance(&w), <Currency<Test, G> as BasicReservableCurrency<u64>>::reserved_balance(&w)), (want.0, want.1, want.2, want.3, want.4), "adapter of currency {c} of {w}"));
	let new = want.3.checked_sub(a);
	let could = if nat { (new.map_or(false, |x| <Balances as Cur<u64>>::ensure_can_withdraw(&w, a, WithdrawReasons::all(), x).is_ok()), <Balances as Cur<u64>>::can_slash(&w, a), <Balances as ReservableCurrency<u64>>::can_reserve(&w, a)) } else { (<Tokens as MultiCurrency<u64>>::ensure_can_withdraw(c, &w, a).is_ok(), <Tokens as MultiCurrency<u64>>::can_slash(c, &w, a), <Tokens as MultiReservableCurrency<u64>>::can_reserve(c, &w, a)) };
	ensure_eq!((<P as MultiCurrency<u64>>::ensure_can_withdraw(c, &w, a).is_ok(), <P as MultiCurrency<u64>>::can_slash(c, &w, a), <P as MultiReservableCurrency<u64>>::can_reserve(c, &w, a)), could, "currency {c} of {w}: may withdraw, slash, reserve {a}");
	by!(c, G => ensure_eq!((<Currency<Test, G> as BasicCurrency<u64>>::ensure_can_withdraw(&w, a).is_ok(), <Currency<Test, G> as BasicCurrency<u64>>::can_slash(&w, a), <Currency<Test, G> as BasicReservableCurrency<u64>>::can_reserve(&w, a)), could, "adapter of currency {c} of {w}: may {a}"));
	ensure_eq!((<FC as fungibles::Inspect<u64>>::total_issuance(c), <FC as fungibles::Inspect<u64>>::minimum_balance(c), <FC as fungibles::Inspect<u64>>::total_balance(c, &w), <FC as fungibles::Inspect<u64>>::balance(c, &w)), (want.1, want.0, want.2, want.3), "fungible {c} of {w}");
	ensure_eq!(<FC as fungibles::Inspect<u64>>::asset_exists(c), nat || <Tokens as fungibles::Inspect<u64>>::asset_exists(c), "fungible {c} exists");
	let (p, f, v) = (pres(i / 3), fort(i % 2 == 0), if i % 4 < 2 { Provenance::Minted } else { Provenance::Extant });
	ensure_eq!(<FC as fungibles::Inspect<u64>>::reducible_balance(c, &w, p, f), if nat { <Balances as fungible::Inspect<u64>>::reducible_balance(&w, p, f) } else { <Tokens as fungibles::Inspect<u64>>::reducible_balance(c, &w, p, f) }, "fungible {c} of {w} reducible {p:?} {f:?}");
	ensure_eq!(<FC as fungibles::Inspect<u64>>::can_deposit(c, &w, a, v), if nat { <Balances as fungible::Inspect<u64>>::can_deposit(&w, a, v) } else { <Tokens as fungibles::Inspect<u64>>::can_deposit(c, &w, a, v) }, "fungible {c} of {w}: can deposit {a}");
	ensure_eq!(<FC as fungibles::Inspect<u64>>::can_withdraw(c, &w, a), if nat { <Balances as fungible::Inspect<u64>>::can_withdraw(&w, a) } else { <Tokens as fungibles::Inspect<u64>>::can_withdraw(c, &w, a) }, "fungible {c} of {w}: can withdraw {a}");
	Ok(())
}
impl Eds { fn get_ed(c: u32) -> u128 { <Eds as orml_traits::GetByKey<u32, u128>>::get(&c) } }
fn run(c: &Case, m: &mut Meter) -> Res {
	C.with(|x| *x.borrow_mut() = Cfg { native: c.native, eds: c.eds, white: c.white });
	let st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (w, a, v) in &c.start { let v = v.saturating_add(c.eds[*a as usize]); let _ = with_storage_layer(|| if *a == c.native { native_deposit(w, v) } else { <Tokens as MultiCurrency<u64>>::deposit(*a, w, v) }); }
		for (i, o) in c.ops.iter().enumerate() {
			let cur = if o.k == K::CallNative { c.native } else { o.c };
			let free = |w: u64| <P as MultiCurrency<u64>>::free_balance(cur, &w);
			let reference = match o.k {
				K::Unreserve | K::SlashReserved | K::Repatriate => <P as MultiReservableCurrency<u64>>::reserved_balance(cur, &o.w),
				K::UnreserveN | K::SlashN | K::RepatriateN => <P as NamedMultiReservableCurrency<u64>>::reserved_balance_named(&lid(o.id), cur, &o.w),
				K::Deposit | K::FMint if o.flag => c.eds[cur as usize],
				K::XIssuance => <P as MultiCurrency<u64>>::total_issuance(cur),
				_ => free(o.w),
			};
			let a = o.a.of(reference);
			let what = || format!("op {i} {o:?} of {a}, native {}", c.native);
			let (want, extra, mut events, after) = { let mut ex = None; let (r, e, s) = seen(|| { let (r, x) = direct(o, a); ex = x; r }); (r, ex, e, s) };
			if let (Ok(_), Some(x)) = (&want, extra) { events.push(RuntimeEvent::Currencies(x)); }
			let before = (free(o.w), free(o.t), <P as MultiCurrency<u64>>::total_issuance(cur));
			let probe = matches!(o.k, K::XWrite | K::XIssuance | K::XDeactivate | K::XReactivate | K::XDust);
			let (got, ev, now) = if probe { seen(|| via(o, a)) } else { System::reset_events(); let r = with_storage_layer(|| via(o, a)); let e = take_events!(Test); (r, e, state()) };
			ensure_eq!(got.as_ref().ok(), want.as_ref().ok(), "{}: outcome, {got:?} and {want:?}", what());
			if now != after { return Err(format!("{}: storage differs from the store's own operation", what())) }
			ensure_eq!(ev, events, "{}: events", what());
			if got.is_ok() && a > 0 {
				let (x, y, z) = (free(o.w), free(o.t), <P as MultiCurrency<u64>>::total_issuance(cur));
				match o.k {
					K::Deposit => must!(x == before.0 + a && z == before.2 + a, "{}: {x}, {z} after {before:?}", what()),
					K::Withdraw => must!((x == before.0 - a || x == 0) && z >= before.2 - before.0 && z <= before.2 - a, "{}: {x}, {z} after {before:?}", what()),
					K::Transfer | K::CallTransfer | K::CallNative if o.w != o.t => must!((x == before.0 - a || x == 0) && y == before.1 + a && z <= before.2, "{}: {x}, {y}, {z} after {before:?}", what()),
					_ => {}
				}
				m.label(if cur == c.native { "native" } else { "token" });
				m.nontrivial();
			} else { m.label(if got.is_ok() { "nothing" } else { "refused" }); }
			for cur in 0..3 {
				let sum: u128 = (1..5).map(|w| <P as MultiCurrency<u64>>::total_balance(cur, &w)).sum();
				if !probe { ensure_eq!(<P as MultiCurrency<u64>>::total_issuance(cur), sum, "{}: issuance of {cur} and the sum of balances", what()); }
				for w in 1..5 { reads(cur, w, a, o.pres * 3 + o.id).map_err(|e| format!("{}: {e}", what()))? }
			}
		}
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("native balances and tokens are kept by stand-ins for pallet-balances and orml-tokens, whose own behaviour is the oracle here");
	c.check("routing", "histories of every operation through the pallet, its single-currency adapter and its fungibles adapter against the same operation on the currency's own store; non-trivial: an operation with an amount succeeded", 12_000, 250_000, case, run);
	std::process::exit(c.finish());
}
