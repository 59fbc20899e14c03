//! The runtime's own glue on real pallets: deposits of insufficient assets (C58), locations and ids (C59), small parts (C61).
use frame_support::storage::{with_storage_layer, with_transaction_unchecked, TransactionOutcome};
use frame_support::traits::{Contains, Currency as Cur, Hooks as _, OnUnbalanced as _};
use frame_system::RawOrigin;
use hydradx_rt::{assets as ra, *};
use hydradx_traits::evm::InspectEvmAccounts;
use kit::{AssetId as _, *};
use orml_traits::GetByKey;
use pallet_transaction_multi_payment as mp;
use sp_runtime::traits::{Convert, Zero};
use std::collections::BTreeMap;

mod places;
mod small;

const ED: u128 = 1_000_000_000_000;
fn acc(i: u8) -> AccountId { match i { 5 => TreasuryAccount::get(), 6 => <ra::RtBondsId as Get<frame_support::PalletId>>::get().pot(), _ => AccountId::new([i + 1; 32]) } }
trait Pot { fn pot(&self) -> AccountId; }
impl Pot for frame_support::PalletId { fn pot(&self) -> AccountId { sp_runtime::traits::AccountIdConversion::<AccountId>::into_account_truncating(self) } }
/// assets 1..=N are registered; N + 1 is not
const N: u32 = 5;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asset { sufficient: bool, ed: u128, price: Option<u128> }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Way { Call, KeepAlive, All, Multi, Currencies, Force }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
	Move { way: Way, f: u8, t: u8, c: u32, a: A },
	Native { way: Way, f: u8, t: u8, a: A },
	Deposit { w: u8, c: u32, a: A },
	Withdraw { w: u8, c: u32, a: A },
	Update { w: u8, c: u32, a: A, neg: bool },
	SetBalance { w: u8, c: u32, a: A },
	Reserve { w: u8, c: u32, a: A, back: bool },
	Ban(u32, bool),
	Sufficient(u32),
	Pay { w: u8, c: u32 },
	Accept { c: u32, price: u128, on: bool },
	Reset(u8),
	White(u8, bool),
	Dust { w: u8, c: u32 },
	Block,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { assets: Vec<Asset>, hdx: Vec<u128>, treasury: u128, plain: bool, ops: Vec<Op> }
fn case() -> BoxedStrategy<Case> {
	let price = || prop_oneof![4 => mag(1_000_000_000, 1 << 90), 2 => mag(1, 1_000_000), 1 => mag(1, u128::MAX)];
	let asset = (proptest::bool::weighted(0.25), prop_oneof![3 => Just(1u128), 2 => mag(2, 100_000)], proptest::option::weighted(0.6, price())).prop_map(|(sufficient, ed, price)| Asset { sufficient, ed, price });
	let who = || prop_oneof![12 => 0u8..4, 2 => Just(5u8), 1 => Just(6u8), 1 => Just(4u8)];
	let cur = || prop_oneof![12 => 1..=N, 1 => Just(N + 1)];
	let way = || prop_oneof![3 => Just(Way::Call), 2 => Just(Way::KeepAlive), 3 => Just(Way::All), 2 => Just(Way::Multi), 3 => Just(Way::Currencies), 1 => Just(Way::Force)];
	let some = || prop_oneof![4 => (1u32..=1_000_000).prop_map(A::Part), 1 => amt(), 4 => Just(A::Off(0)), 1 => mag(1, 1 << 70).prop_map(A::Abs)];
	let hdx = || prop_oneof![6 => mag(20 * ED, 1_000 * ED), 2 => mag(ED, 4 * ED), 1 => Just(0u128)];
	(proptest::collection::vec(asset, N as usize), proptest::collection::vec(hdx(), 5), prop_oneof![3 => hdx(), 1 => Just(1_000_000 * ED)], proptest::bool::weighted(0.6)).prop_flat_map(move |(assets, hdx, treasury, plain)| {
		let op = prop_oneof![
			14 => (way(), who(), who(), cur(), some()).prop_map(|(way, f, t, c, a)| Op::Move { way, f, t, c, a }),
			3 => (way(), who(), who(), amt()).prop_map(|(way, f, t, a)| Op::Native { way, f, t, a }),
			6 => (who(), cur(), prop_oneof![4 => mag(1 << 40, 1 << 80), 1 => 1u128..5]).prop_map(|(w, c, a)| Op::Deposit { w, c, a: A::Abs(a) }),
			3 => (who(), cur(), some()).prop_map(|(w, c, a)| Op::Withdraw { w, c, a }),
			2 => (who(), cur(), some(), any::<bool>()).prop_map(|(w, c, a, neg)| Op::Update { w, c, a, neg }),
			2 => (who(), cur(), some()).prop_map(move |(w, c, a)| if plain { Op::Withdraw { w, c, a } } else { Op::SetBalance { w, c, a } }),
			1 => (who(), cur(), some(), any::<bool>()).prop_map(|(w, c, a, back)| Op::Reserve { w, c, a, back }),
			3 => (cur(), any::<bool>()).prop_map(|(c, b)| Op::Ban(c, b)),
			1 => cur().prop_map(move |c| if plain { Op::Block } else { Op::Sufficient(c) }),
			3 => (who(), 0..=N).prop_map(|(w, c)| Op::Pay { w, c }),
			2 => (1..=N, price(), proptest::bool::weighted(0.7)).prop_map(|(c, price, on)| Op::Accept { c, price, on }),
			1 => who().prop_map(Op::Reset),
			1 => (who(), any::<bool>()).prop_map(|(w, b)| Op::White(w, b)),
			2 => (who(), cur()).prop_map(|(w, c)| Op::Dust { w, c }),
			1 => Just(Op::Block),
		];
		(Just(assets), Just(hdx), Just(treasury), Just(plain), proptest::collection::vec(op, 4..40))
	}).prop_map(|(assets, hdx, treasury, plain, ops)| Case { assets, hdx, treasury, plain, ops }).boxed()
}
// ---- the model: what it takes to hold an asset that is not sufficient
fn sufficient(c: u32) -> bool { pallet_asset_registry::Assets::<Runtime>::get(c).map_or(false, |d| d.is_sufficient) }
fn locked() -> u128 { pallet_balances::Locks::<Runtime>::get(TreasuryAccount::get()).iter().find(|l| &l.id == b"insuffED").map_or(0, |l| l.amount) }
fn paid() -> u128 { pallet_asset_registry::ExistentialDepositCounter::<Runtime>::get() }
fn lock(x: u128) { if x == 0 { <Currencies as MultiLockableCurrency<AccountId>>::remove_lock(*b"insuffED", 0, &TreasuryAccount::get()).unwrap() } else { <Currencies as MultiLockableCurrency<AccountId>>::set_lock(*b"insuffED", 0, &TreasuryAccount::get(), x).unwrap() } }
fn funds(a: u32, payer: &AccountId, to: &AccountId) -> DispatchResult {
	if pallet_asset_registry::BannedAssets::<Runtime>::contains_key(a) { return Err(DispatchError::Other("BannedAssetTransfer")) }
	if sufficient(a) || orml_tokens::Accounts::<Runtime>::contains_key(to, a) { return Ok(()) }
	let fee = mp::AccountCurrencyMap::<Runtime>::get(payer).unwrap_or(0);
	let price = if fee == 0 { Some(1_000_000_000_000_000_000) } else { mp::AcceptedCurrencyPrice::<Runtime>::get(fee).map(|p| p.into_inner()) };
	let price = price.ok_or(mp::Error::<Runtime>::UnsupportedCurrency)?;
	let amount = quo(b(price) * b(ED / 10 * 11), b(1_000_000_000_000_000_000)).unwrap_or(u128::MAX).max(1);
	let treasury = TreasuryAccount::get();
	// the treasury's own deposit in what it is being paid with is on the house
	let free = a == fee && *to == treasury;
	if !free { <Currencies as MultiCurrency<AccountId>>::transfer(fee, payer, &treasury, amount).map_err(|_| orml_tokens::Error::<Runtime>::ExistentialDeposit)?; }
	lock(locked() + ED);
	System::inc_sufficients(to);
	pallet_asset_registry::ExistentialDepositCounter::<Runtime>::put(paid() + 1);
	if !free { System::deposit_event(RuntimeEvent::AssetRegistry(pallet_asset_registry::Event::ExistentialDepositPaid { who: payer.clone(), fee_asset: fee, amount })); }
	Ok(())
}
fn gone(who: &AccountId, a: u32) {
	if sufficient(a) || System::sufficients(who) == 0 { return }
	let (l, n) = (locked(), paid());
	let back = if n == 0 { 0 } else { l / n };
	lock(l - back);
	let _ = <Currencies as MultiCurrency<AccountId>>::transfer(0, &TreasuryAccount::get(), who, back);
	System::dec_sufficients(who);
	pallet_asset_registry::ExistentialDepositCounter::<Runtime>::put(n.saturating_sub(1));
}
/// Someone who holds the asset, if anyone does.
fn holder(w: u8, c: u32) -> u8 { let h: Vec<u8> = (0..7).filter(|i| !<Currencies as MultiCurrency<AccountId>>::total_balance(c, &acc(*i)).is_zero()).collect(); if w > 3 || h.is_empty() { w } else { h[w as usize % h.len()] } }
fn aimed(o: &Op) -> Op { let mut o = o.clone(); match &mut o { Op::Move { f, c, .. } => *f = holder(*f, *c), Op::Withdraw { w, c, .. } | Op::Dust { w, c } | Op::Reserve { w, c, .. } => *w = holder(*w, *c), Op::Update { w, c, neg, .. } if *neg => *w = holder(*w, *c), Op::Pay { w, c } if *c > 0 => *w = holder(*w, *c), _ => {} } o }
fn apply(o: &Op) -> DispatchResult {
	let by = |w: u8| RuntimeOrigin::from(RawOrigin::Signed(acc(w)));
	let root = || RuntimeOrigin::from(RawOrigin::Root);
	let free = |c: u32, w: u8| <Currencies as MultiCurrency<AccountId>>::free_balance(c, &acc(w));
	match o {
		Op::Move { way, f, t, c, a } => { let a = a.of(free(*c, *f)); match way {
			Way::Call => Tokens::transfer(by(*f), acc(*t), *c, a),
			Way::KeepAlive => Tokens::transfer_keep_alive(by(*f), acc(*t), *c, a).map(|_| ()).map_err(|e| e.error),
			Way::All => Tokens::transfer_all(by(*f), acc(*t), *c, a % 2 == 1),
			Way::Multi => with_storage_layer(|| <Currencies as MultiCurrency<AccountId>>::transfer(*c, &acc(*f), &acc(*t), a)),
			Way::Currencies => Currencies::transfer(by(*f), acc(*t), *c, a),
			Way::Force => Tokens::force_transfer(root(), acc(*f), acc(*t), *c, a),
		} }
		Op::Native { way, f, t, a } => { let a = a.of(free(0, *f)); match way {
			Way::KeepAlive => Balances::transfer_keep_alive(by(*f), acc(*t), a),
			Way::All => Balances::transfer_all(by(*f), acc(*t), a % 2 == 1),
			Way::Multi => with_storage_layer(|| <Currencies as MultiCurrency<AccountId>>::transfer(0, &acc(*f), &acc(*t), a)),
			Way::Currencies => Currencies::transfer(by(*f), acc(*t), 0, a),
			Way::Force => Balances::force_transfer(root(), acc(*f), acc(*t), a),
			Way::Call => Balances::transfer_allow_death(by(*f), acc(*t), a),
		} }
		Op::Deposit { w, c, a } => with_storage_layer(|| <Currencies as MultiCurrency<AccountId>>::deposit(*c, &acc(*w), a.of(free(*c, *w)))),
		Op::Withdraw { w, c, a } => with_storage_layer(|| <Currencies as MultiCurrency<AccountId>>::withdraw(*c, &acc(*w), a.of(free(*c, *w)))),
		Op::Update { w, c, a, neg } => { let x = a.of(free(*c, *w)).min(i128::MAX as u128) as i128; Currencies::update_balance(root(), acc(*w), *c, if *neg { -x } else { x }) }
		Op::SetBalance { w, c, a } => Tokens::set_balance(root(), acc(*w), *c, a.of(free(*c, *w)), 0),
		Op::Reserve { w, c, a, back } => with_storage_layer(|| { if *back { <Currencies as MultiReservableCurrency<AccountId>>::unreserve(*c, &acc(*w), a.of(free(*c, *w))); Ok(()) } else { <Currencies as MultiReservableCurrency<AccountId>>::reserve(*c, &acc(*w), a.of(free(*c, *w))) } }),
		Op::Ban(c, on) => if *on { AssetRegistry::ban_asset(root(), *c) } else { AssetRegistry::unban_asset(root(), *c) },
		Op::Sufficient(c) => AssetRegistry::update(root(), *c, None, None, None, None, Some(true), None, None, None),
		Op::Pay { w, c } => MultiTransactionPayment::set_currency(by(*w), *c),
		Op::Accept { c, price, on } => if *on { MultiTransactionPayment::add_currency(root(), *c, FixedU128::from_inner(*price)) } else { MultiTransactionPayment::remove_currency(root(), *c) },
		Op::Reset(w) => MultiTransactionPayment::reset_payment_currency(root(), acc(*w)),
		Op::White(w, on) => if *on { Duster::add_nondustable_account(root(), acc(*w)) } else { Duster::remove_nondustable_account(root(), acc(*w)) },
		Op::Dust { w, c } => Duster::dust_account(by((*w + 1) % 4), acc(*w), *c),
		Op::Block => { let n = System::block_number() + 1; System::set_block_number(n); MultiTransactionPayment::on_initialize(n); Ok(()) }
	}
}
fn settle() { MultiTransactionPayment::on_initialize(1); }
/// what an operation does under a speaker, seen and undone
fn seen(s: Speaker, o: &Op) -> (DispatchResult, Vec<RuntimeEvent>, BTreeMap<Vec<u8>, Vec<u8>>, u32) {
	speak(s);
	deepest();
	handed();
	let r = with_transaction_unchecked(|| { System::reset_events(); let r = with_storage_layer(|| apply(o)); let e = take_events!(Runtime); let s = state(); TransactionOutcome::Rollback((r, e, s)) });
	speak(Speaker::Runtime);
	(r.0, r.1, r.2, deepest())
}
fn accounts() -> Vec<AccountId> { (0..7).map(acc).collect() }
fn hdx() -> u128 { frame_system::Account::<Runtime>::iter().map(|(_, a)| a.data.free + a.data.reserved).sum() }
fn run(c: &Case, m: &mut Meter) -> Res {
	model(Model { funds, gone });
	speak(Speaker::Runtime);
	let mut st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	pallet_duster::GenesisConfig::<Runtime> { account_blacklist: vec![TreasuryAccount::get()], reward_account: Some(TreasuryAccount::get()), dust_account: Some(TreasuryAccount::get()) }.assimilate_storage(&mut st).unwrap();
	fresh(st, || {
		System::set_block_number(1);
		for (i, a) in c.assets.iter().enumerate() {
			AssetRegistry::register(RawOrigin::Root.into(), Some(i as u32 + 1), None, pallet_asset_registry::AssetType::Token, Some(a.ed), None, None, None, None, a.sufficient).map_err(|e| format!("register {e:?}"))?;
			if let Some(p) = a.price { MultiTransactionPayment::add_currency(RawOrigin::Root.into(), i as u32 + 1, FixedU128::from_inner(p)).map_err(|e| format!("accept {e:?}"))? }
		}
		settle();
		for (i, x) in c.hdx.iter().enumerate() { let _ = Balances::deposit_creating(&acc(i as u8), *x); }
		let _ = Balances::deposit_creating(&acc(5), c.treasury);
		let (mut charged, mut refunded) = (0u32, 0u32);
		let mut plain = c.plain;
		for (i, o) in c.ops.iter().enumerate() {
			let o = &aimed(o);
			let what = || format!("op {i} {o:?}");
			let want = seen(Speaker::Model, o);
			let got = seen(Speaker::Runtime, o);
			must!(got.3 < 8, "{}: the hooks keep calling themselves", what());
			ensure_eq!(got.0, want.0, "{}: outcome", what());
			ensure_eq!(got.1, want.1, "{}: events", what());
			if got.2 != want.2 { let k = got.2.iter().find(|(k, v)| want.2.get(*k) != Some(v)).map(|x| x.0).or_else(|| want.2.keys().find(|k| !got.2.contains_key(*k))); return Err(format!("{}: storage differs from the model's at {}", what(), k.map_or("?".into(), |k| String::from_utf8_lossy(k).into_owned()))) }
			let (n0, i0, t0) = (paid(), Balances::total_issuance(), Balances::free_balance(&TreasuryAccount::get()));
			System::reset_events();
			let r = with_storage_layer(|| apply(o));
			let ev = take_events!(Runtime);
			if r.is_err() { m.label("refused"); }
			for e in &ev { if let RuntimeEvent::AssetRegistry(pallet_asset_registry::Event::ExistentialDepositPaid { who, fee_asset, .. }) = e { charged += 1; m.label(if *fee_asset == 0 { "deposit in HDX" } else { "deposit in another asset" }); if let Op::Move { f, t, .. } = o { if acc(*f) != *who { m.label(if acc(*t) == *who { "receiver pays" } else { "neither pays" }) } } } }
			if ev.iter().any(|e| matches!(e, RuntimeEvent::Balances(pallet_balances::Event::Transfer { from, amount: ED, .. }) if *from == TreasuryAccount::get())) || paid() < n0 { refunded += 1; m.label("refund"); }
			if ev.iter().any(|e| matches!(e, RuntimeEvent::Balances(pallet_balances::Event::DustLost { .. }))) { m.label("dust in HDX"); }
			// HDX: what is issued is what is held
			ensure_eq!(Balances::total_issuance(), hdx(), "{}: HDX issued and held", what());
			let dust: u128 = ev.iter().map(|e| match e { RuntimeEvent::Balances(pallet_balances::Event::DustLost { amount, .. }) => *amount, _ => 0 }).sum();
			must!(Balances::total_issuance() == i0 || (dust > 0 && i0 - Balances::total_issuance() <= dust), "{}: HDX issuance {i0} became {}", what(), Balances::total_issuance());
			if dust > 0 && t0 > 0 && <Balances as Cur<AccountId>>::free_balance(&TreasuryAccount::get()) > 2 * ED { ensure_eq!(Balances::total_issuance(), i0, "{}: dust of {dust} left HDX", what()) }
			// orml-tokens hands dust over while the receiver of the transfer that caused it is still being changed; when they are
			// the same account, what it writes is not what the hooks saw
			let dest = Duster::dust_dest_account().unwrap();
			let same = matches!(o, Op::Move { t, .. } if acc(*t) == dest) || (dest == TreasuryAccount::get() && ev.iter().any(|e| matches!(e, RuntimeEvent::AssetRegistry(pallet_asset_registry::Event::ExistentialDepositPaid { fee_asset, .. }) if *fee_asset != 0)));
			if same && ev.iter().any(|e| matches!(e, RuntimeEvent::Tokens(orml_tokens::Event::DustLost { .. }))) { plain = false; m.label("dust into the receiver"); }
			if plain {
				let live = accounts().iter().map(|w| (1..=N + 1).filter(|a| !sufficient(*a) && orml_tokens::Accounts::<Runtime>::contains_key(w, *a)).count() as u128).collect::<Vec<_>>();
				ensure_eq!(paid(), live.iter().sum::<u128>(), "{}: deposits counted and accounts that owe one", what());
				ensure_eq!(locked(), paid() * ED, "{}: HDX locked for {} deposits", what(), paid());
				for (w, n) in accounts().iter().zip(&live) { ensure_eq!(System::sufficients(w) as u128, *n, "{}: references of {w:?}", what()); }
				ensure_eq!(<ra::RtRefundEd as hydradx_traits::router::RefundEdCalculator<u128>>::calculate(), if paid() == 0 { 0 } else { ED }, "{}: deposit to be refunded", what());
			}
		}
		if charged > 0 && refunded > 0 { m.nontrivial() }
		Ok(())
	})
}
fn main() {
	let id = std::env::args().nth(1).unwrap();
	let mut c = Ctx::new(&id);
	c.assume("the runtime's own items are taken out of runtime/hydradx/src at build time and run on the repository's pallets; frame-system, pallet-balances and orml-tokens are stand-ins; runtime configuration constants are as taken");
	match id.as_str() {
		"C58" => c.check("deposits", "histories of transfers, deposits, withdrawals, dusting, bans, fee currency changes and whitelisting over sufficient and insufficient assets, every operation against a model of the deposit rule; non-trivial: a deposit was charged and another refunded", 20_000, 400_000, case, run),
		"C59" => places::main(&mut c),
		_ => small::main(&mut c),
	}
	std::process::exit(c.finish());
}
