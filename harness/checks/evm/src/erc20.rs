//! Every asset is a contract: addresses, names, supplies, balances and transfers, against a ledger.
use crate::*;
use fp_evm::{ExitRevert, IsPrecompileResult, Precompile, PrecompileFailure, PrecompileResult, PrecompileSet};
use hydradx_evm::evm::precompiles::{erc20_mapping::*, multicurrency::MultiCurrencyPrecompile, *};
use std::collections::{BTreeMap, BTreeSet};

const ASSETS: [u32; 7] = [0, 1, 2, WETH, 0x0102_0304, u32::MAX, 7];
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tgt { Asset(u8), Id(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum To { Adr(u8), Raw([u8; 20]) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call { by: u8, tgt: Tgt, fun: u8, to: To, x: A, high: u8, value: bool, fixed: bool, gas: u64, delegate: bool, cut: Option<u8>, more: Vec<u8>, set: bool }
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op { Bind(u8), Mint { who: u8, full: bool, a: u8, x: u128 }, Hold { who: u8, full: bool, a: u8, x: A }, Call(Call) }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case { meta: Vec<(Option<Vec<u8>>, Option<Vec<u8>>, Option<u8>)>, ops: Vec<Op> }
fn call() -> BoxedStrategy<Call> {
	let tgt = prop_oneof![12 => (0u8..7).prop_map(Tgt::Asset), 1 => any::<u32>().prop_map(Tgt::Id)];
	let to = prop_oneof![8 => (0u8..6).prop_map(To::Adr), 1 => any::<[u8; 20]>().prop_map(To::Raw)];
	let rare = |n: u32| prop::bool::weighted(1.0 / n as f64);
	((0u8..6, tgt, prop_oneof![6 => Just(6u8), 4 => 0u8..5, 2 => 0u8..14], to, amt(), prop_oneof![8 => Just(0u8), 1 => any::<u8>()], rare(20)), (rare(12), prop_oneof![10 => Just(1_000_000u64), 1 => 990u64..1010, 1 => 0u64..2000], rare(20), proptest::option::weighted(0.06, any::<u8>()), prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 1..70)], any::<bool>()))
		.prop_map(|((by, tgt, fun, to, x, high, value), (fixed, gas, delegate, cut, more, set))| Call { by, tgt, fun, to, x, high, value, fixed, gas, delegate, cut, more, set }).boxed()
}
fn op() -> BoxedStrategy<Op> {
	prop_oneof![1 => (0u8..6).prop_map(Op::Bind), 3 => (0u8..6, any::<bool>(), 0u8..6, mag(1, 1 << 100)).prop_map(|(who, full, a, x)| Op::Mint { who, full, a, x }), 1 => (0u8..6, any::<bool>(), 0u8..6, amt()).prop_map(|(who, full, a, x)| Op::Hold { who, full, a, x }), 9 => call().prop_map(Op::Call)].boxed()
}
fn case() -> BoxedStrategy<Case> {
	let text = || prop_oneof![proptest::collection::vec(any::<u8>(), 1..80), proptest::collection::vec(any::<u8>(), 31..34), Just(b"HDX".to_vec())];
	(proptest::collection::vec((proptest::option::weighted(0.8, text()), proptest::option::weighted(0.8, text()), proptest::option::weighted(0.8, any::<u8>())), 5), proptest::collection::vec(op(), 1..40)).prop_map(|(meta, ops)| Case { meta, ops }).boxed()
}
fn selector(f: u8) -> Vec<u8> {
	let s = ["name()", "symbol()", "decimals()", "totalSupply()", "balanceOf(address)", "allowance(address,address)", "transfer(address,uint256)", "approve(address,uint256)", "transferFrom(address,address,uint256)", "mint(address,uint256)", "owner()", "increaseAllowance(address,uint256)", "Transfer(address,uint256)", "transfer(uint256,address)"][f as usize];
	sp_io::hashing::keccak_256(s.as_bytes())[..4].to_vec()
}
struct Model { l: Ledger<[u8; 32]>, bound: BTreeSet<H160>, meta: BTreeMap<u32, (Option<Vec<u8>>, Option<Vec<u8>>, Option<u8>)> }
impl Model { fn acc(&self, a: H160) -> [u8; 32] { if self.bound.contains(&a) { full(a) } else { plain(a) } } }
pub(crate) fn bytes(b: &[u8]) -> Vec<u8> { let mut p = b.to_vec(); p.resize((p.len() + 31) / 32 * 32, 0); [word(32.into()), word(b.len().into()), p].concat() }

fn run_case(c: &Case, m: &mut Meter) -> Res {
	use pallet_asset_registry as reg;
	world(|w| *w = World::default());
	let mut model = Model { l: Ledger::default(), bound: BTreeSet::new(), meta: BTreeMap::new() };
	let text = |t: &Option<Vec<u8>>| t.clone().map(|t| t.try_into().unwrap());
	let mut names = BTreeSet::new();
	let mut metas = vec![];
	for (i, (name, symbol, decimals)) in c.meta.iter().enumerate() {
		let name = name.clone().filter(|n| n != b"HDX" && names.insert(n.clone()));
		metas.push((ASSETS[i + 1], name, symbol.clone(), *decimals));
	}
	fresh(genesis(), || {
		frame_support::traits::BuildGenesisConfig::build(&reg::GenesisConfig::<Runtime>::default());
		model.meta.insert(0, (Some(b"HDX".to_vec()), Some(b"HDX".to_vec()), Some(12)));
		for (a, name, symbol, decimals) in &metas {
			// an asset may be known without a symbol or decimals; ids outside the registry's range come with genesis
			let d = reg::AssetDetails { name: text(name), asset_type: reg::AssetType::Token, existential_deposit: 1, symbol: text(symbol), decimals: *decimals, xcm_rate_limit: None, is_sufficient: true };
			reg::Assets::<Runtime>::insert(a, d);
			model.meta.insert(*a, (name.clone(), symbol.clone(), *decimals));
		}
		let people: Vec<[u8; 32]> = (0..6).flat_map(|i| [plain(adr(i)), full(adr(i))]).collect();
		for (i, o) in c.ops.iter().enumerate() {
			match o {
				Op::Bind(k) => { eq!(format!("op {i}: binding"), bind(adr(*k)), model.bound.insert(adr(*k))); }
				Op::Mint { who, full: f, a, x } => {
					let (w, a) = (if *f { full(adr(*who)) } else { plain(adr(*who)) }, ASSETS[*a as usize]);
					eq!(format!("op {i}: mint"), mint(&w, a, *x), model.l.mint(&w, a, *x).is_some());
				}
				Op::Hold { who, full: f, a, x } => {
					// what is reserved is still issued but not the account's to show or move
					let (w, a) = (if *f { full(adr(*who)) } else { plain(adr(*who)) }, ASSETS[*a as usize]);
					let have = model.l.get(&w, a);
					let x = x.of(have).min(have.saturating_sub(1));
					if x > 0 { <Currencies as orml_traits::MultiReservableCurrency<AccountId32>>::reserve(a, &id(w), x).map_err(|e| format!("op {i}: reserve {x} of {have}: {e:?}"))?; must!(model.l.mv(a, &w, &[255; 32], x).is_some(), "op {i}: model"); }
				}
				Op::Call(k) => one(k, &mut model, m).map_err(|e| format!("op {i}: {e}"))?,
			}
			same_ledger(&model.l, &people, &ASSETS, |a, w| <Currencies as MultiCurrency<AccountId32>>::free_balance(a, &id(*w)), |a| <Currencies as MultiCurrency<AccountId32>>::total_issuance(a)).map_err(|e| format!("op {i}: {e}"))?;
		}
		Ok(())
	})
}
fn one(k: &Call, model: &mut Model, m: &mut Meter) -> Res {
	let asset = match k.tgt { Tgt::Asset(i) => ASSETS[i as usize], Tgt::Id(x) => x };
	let mut code = [0u8; 20];
	code[15] = 1;
	code[16..].copy_from_slice(&asset.to_be_bytes());
	let code = H160(code);
	let by = adr(k.by);
	let to = match k.to { To::Adr(i) => adr(i), To::Raw(x) => H160(x) };
	let from = model.acc(by);
	let x = k.x.of(model.l.get(&from, asset));
	let amount = W::from(x) + (W::from(k.high) << 128);
	let zeros = [0u8; 12];
	let one = [&zeros[..], &to.0].concat();
	let args = match k.fun { 4 => vec![one], 6 | 7 | 9 | 11 | 12 => vec![one, word(amount)], 5 => vec![one.clone(), one], 8 => vec![one.clone(), one, word(amount)], 13 => vec![word(amount), one], _ => vec![] };
	let need = match k.fun { 4 => 1, 6 => 2, _ => 0 };
	let mut data = [selector(k.fun), args.concat(), k.more.clone()].concat();
	if let Some(c) = k.cut { let n = c as usize % (data.len() + 1); data.truncate(n); }
	let mut h = Handle::new(code, by, data.clone());
	if k.delegate { h.ctx.address = adr(5); }
	if k.value { h.ctx.apparent_value = W::one(); }
	h.fixed = k.fixed;
	h.gas = k.gas;
	// what it should do
	let reads = |v: Option<Vec<u8>>| v;
	let meta = model.meta.get(&asset).cloned().unwrap_or_default();
	let refused = (k.delegate && k.set) || k.value || (k.fixed && k.fun == 6) || data.len() < 4 + 32 * need || k.gas < 1000;
	let mut after = None;
	let want = if refused { None } else { match k.fun {
		0 => reads(meta.0.map(|n| bytes(&n))),
		1 => reads(meta.1.map(|n| bytes(&n))),
		2 => reads(meta.2.map(|d| word(d.into()))),
		3 => reads(Some(word(model.l.total(asset).into()))),
		4 => reads(Some(word(model.l.get(&model.acc(to), asset).into()))),
		6 => if k.high > 0 { None } else { let mut l = model.l.clone(); let dest = model.acc(to); l.mv(asset, &from, &dest, x).map(|_| { after = Some(l); word(1.into()) }) },
		_ => None,
	} };
	let before = state();
	let got = frame_support::storage::with_storage_layer(|| -> Result<PrecompileResult, sp_runtime::DispatchError> {
		let r = if k.set { match Contracts::new().execute(&mut h) { Some(r) => r, None => return Err("no contract".into()) } } else { MultiCurrencyPrecompile::<Runtime>::execute(&mut h) };
		Ok(r)
	}).map_err(|e| format!("{e:?}"))?;
	let failed_left_no_trace = state() == before;
	match (&got, &want) {
		(Ok(o), Some(w)) => {
			eq!("result", o.output.clone(), w.clone());
			eq!("gas", h.spent, 1000);
			if k.fun == 6 { m.label("transfer"); m.nontrivial(); } else { m.label("view"); }
		}
		(Err(_), None) => {
			ensure_that!(failed_left_no_trace, "a refused call changed the state");
			m.label(if refused { "refused" } else { "fails" });
		}
		_ => return Err(format!("{k:?}: {got:?}, expected {want:?}")),
	}
	if k.fun != 6 || after.is_none() { ensure_that!(failed_left_no_trace, "a call that is no transfer changed the state"); }
	ensure_that!(h.calls.is_empty() && h.logs.is_empty(), "calls or logs of an asset contract");
	if let Some(l) = after { model.l = l; }
	Ok(())
}

// ---- which address is which contract
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Addr { a: [u8; 20], id: u32, same: bool, input: Vec<u8>, index: u8, authors: Vec<[u8; 32]> }
fn addrs() -> BoxedStrategy<Addr> {
	let low = |x: u64| { let mut d = [0u8; 20]; d[12..].copy_from_slice(&x.to_be_bytes()); d };
	let a = prop_oneof![
		4 => (0u64..12).prop_map(low),
		2 => prop_oneof![1023u64..1028, 0x808u64..0x80d, Just(1025u64), Just(0x80au64), Just(0x100), Just(0x0100_0001)].prop_map(low),
		4 => any::<u32>().prop_map(move |x| low((1 << 32) + x as u64)),
		2 => any::<u32>().prop_map(move |x| low((2 << 32) + x as u64)),
		3 => (0usize..20, any::<u8>(), any::<u32>()).prop_map(move |(i, b, x)| { let mut d = low((1 << 32) + x as u64); d[i] = b; d }),
		1 => (0usize..20, any::<u8>(), 1u64..10).prop_map(move |(i, b, x)| { let mut d = low(x); d[i] = b; d }),
		1 => any::<[u8; 20]>(),
	];
	(a, mag(0, u32::MAX as u128), any::<bool>(), proptest::collection::vec(any::<u8>(), 0..6), any::<u8>(), proptest::collection::vec(any::<[u8; 32]>(), 1..5)).prop_map(|(a, id, same, input, index, authors)| Addr { a, id: id as u32, same, input, index, authors }).boxed()
}
thread_local! { static AUTHOR: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) }; }
struct Index;
impl hydradx_evm::evm::FindAuthor<u32> for Index { fn find_author<'a, I: 'a + IntoIterator<Item = (hydradx_evm::evm::ConsensusEngineId, &'a [u8])>>(_: I) -> Option<u32> { AUTHOR.with(|a| a.get()) } }
fn addr_case(c: &Addr, m: &mut Meter) -> Res {
	world(|w| *w = World::default());
	let a = H160(c.a);
	fresh(genesis(), || {
		// asset ids and addresses
		let mut d = [0u8; 20];
		d[15] = 1;
		d[16..].copy_from_slice(&c.id.to_be_bytes());
		eq!("address of an asset", HydraErc20Mapping::encode_evm_address(c.id), Some(H160(d)));
		eq!("asset of its address", HydraErc20Mapping::decode_evm_address(H160(d)), Some(c.id));
		let asset = (c.a[..15] == [0; 15] && c.a[15] == 1).then(|| u32::from_be_bytes(c.a[16..].try_into().unwrap()));
		eq!("asset of an address", HydraErc20Mapping::decode_evm_address(a), asset);
		eq!("is an asset", is_asset_address(a), asset.is_some());
		// which contract runs
		let low = if c.a[..12] == [0; 12] { Some(u64::from_be_bytes(c.a[12..].try_into().unwrap())) } else { None };
		let standard = ["", "ECRecover", "Sha256", "Ripemd160", "Identity", "Modexp", "Bn128Add", "Bn128Mul", "Bn128Pairing", "Blake2F"];
		let (marker, custom) = match low { Some(x @ 1..=9) => (Some(standard[x as usize]), false), Some(1025) => (Some("Dispatch"), true), Some(0x80a) => (Some("permit"), true), _ if asset.is_some() => (Some("asset"), true), _ => (None, false) };
		for gas in [0, 1, u64::MAX] { eq!("is a contract", Contracts::new().is_precompile(a, gas), IsPrecompileResult::Answer { is_precompile: marker.is_some(), extra_cost: 0 }); }
		let mut h = Handle::new(a, adr(2), c.input.clone());
		if !c.same { h.ctx.address = if a == adr(4) { adr(5) } else { adr(4) }; }
		let got = Contracts::new().execute(&mut h);
		match (marker, custom, c.same) {
			(None, ..) => { eq!("other contract", got, None); m.label("none"); }
			(_, true, false) => { eq!("through delegation", got, Some(Err(PrecompileFailure::Revert { exit_status: ExitRevert::Reverted, output: b"cannot be called with DELEGATECALL or CALLCODE".to_vec() }))); m.label("delegated"); m.nontrivial(); }
			(Some(x), _, _) if x != "permit" && x != "asset" => { eq!("contract", got.and_then(|r| r.ok()).map(|o| o.output), Some([format!("{x}:").as_bytes(), &c.input].concat())); m.label("standard"); m.nontrivial(); }
			_ => { ensure_that!(got.is_some(), "no contract ran"); m.label("own"); m.nontrivial(); }
		}
		if marker == Some("permit") && c.same {
			let mut h = Handle::new(a, adr(2), [&sp_io::hashing::keccak_256(b"nonces(address)")[..4], &[0; 32]].concat());
			eq!("the permit contract", Contracts::new().execute(&mut h).and_then(|r| r.ok()).map(|o| o.output), Some(vec![0; 32]));
		}
		// the author of a block
		world(|w| w.authors = c.authors.clone());
		for i in [None, Some(c.index as u32 % c.authors.len() as u32)] {
			AUTHOR.with(|x| x.set(i));
			let want = i.map(|i| H160::from_slice(&c.authors[i as usize][4..24]));
			eq!("author", <hydradx_evm::evm::FindAuthorTruncated<Index> as hydradx_evm::evm::FindAuthor<H160>>::find_author(std::iter::empty()), want);
		}
		Ok(())
	})
}
pub fn run(c: &mut Ctx) {
	c.assume("existential deposits are one; the interpreter is played by a handle that meters gas and rolls back failed calls");
	c.check("asset contracts", "histories of bindings, deposits and contract calls on seven assets by six addresses; non-trivial: a transfer succeeded", 6000, 150_000, case, run_case);
	c.check("addresses", "addresses near every contract, with and without delegation; asset addresses both ways; block authors; non-trivial: a contract answers", 40_000, 1_000_000, addrs, addr_case);
}
