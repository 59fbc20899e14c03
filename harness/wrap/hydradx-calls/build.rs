//! The list of the runtime's pallets and of their calls, and the rules of `runtime/hydradx/src` on who may make which of them.
use extract::{extract, write, Want};
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
const RT: &str = "/repo/runtime/hydradx/src";
fn read(f: &str) -> syn::File {
	println!("cargo:rerun-if-changed={f}");
	syn::parse_file(&std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}"))).unwrap_or_else(|e| panic!("{f}: {e}"))
}
/// calls of pallets whose source is not in the repository: name, fields
const OUTSIDE: &[(&str, &str)] = &[
	("frame_system", "remark set_heap_pages set_code set_code_without_checks set_storage kill_storage kill_prefix remark_with_event do_task authorize_upgrade apply_authorized_upgrade"),
	("pallet_timestamp", "set"),
	("pallet_balances", "transfer_allow_death(dest,value) force_transfer(source,dest,value) transfer_keep_alive(dest,value) transfer_all(dest,keep_alive) force_unreserve upgrade_accounts force_set_balance force_adjust_total_issuance"),
	("orml_tokens", "transfer(dest,currency_id,amount) transfer_all(dest,currency_id,keep_alive) transfer_keep_alive(dest,currency_id,amount) force_transfer(source,dest,currency_id,amount) set_balance(who,currency_id,new_free,new_reserved)"),
	("pallet_treasury", "propose_spend reject_proposal approve_proposal spend_local remove_approval spend payout check_status void_spend"),
	("pallet_utility", "batch as_derivative batch_all dispatch_as force_batch with_weight"),
	("pallet_preimage", "note_preimage unnote_preimage request_preimage unrequest_preimage ensure_updated"),
	("pallet_identity", "add_registrar set_identity set_subs clear_identity request_judgement cancel_request set_fee set_account_id set_fields provide_judgement kill_identity add_sub rename_sub remove_sub quit_sub add_username_authority remove_username_authority set_username_for accept_username remove_expired_approval set_primary_username remove_dangling_username"),
	("pallet_elections_phragmen", "vote remove_voter submit_candidacy renounce_candidacy remove_member clean_defunct_voters"),
	("pallet_collective", "set_members execute propose vote disapprove_proposal close"),
	("pallet_tips", "report_awesome retract_tip tip_new tip close_tip slash_tip"),
	("pallet_proxy", "proxy add_proxy remove_proxy remove_proxies create_pure kill_pure announce remove_announcement reject_announcement proxy_announced"),
	("pallet_multisig", "as_multi_threshold_1 as_multi approve_as_multi cancel_as_multi"),
	("pallet_uniques", "create force_create destroy mint burn transfer redeposit freeze thaw freeze_collection thaw_collection transfer_ownership set_team approve_transfer cancel_approval force_item_status set_attribute clear_attribute set_metadata clear_metadata set_collection_metadata clear_collection_metadata set_accept_ownership set_collection_max_supply set_price buy_item"),
	("pallet_state_trie_migration", "control_auto_migration continue_migrate migrate_custom_top migrate_custom_child set_signed_max_limits force_set_progress"),
	("orml_vesting", "claim vested_transfer update_vesting_schedules claim_for"),
	("pallet_evm", "withdraw call create create2"),
	("pallet_ethereum", "transact"),
	("pallet_scheduler", "schedule cancel schedule_named cancel_named schedule_after schedule_named_after set_retry set_retry_named cancel_retry cancel_retry_named"),
	("pallet_session", "set_keys purge_keys"),
	("pallet_collator_selection", "set_invulnerables set_desired_candidates set_candidacy_bond register_as_candidate leave_intent add_invulnerable remove_invulnerable update_bond take_candidate_slot"),
	("cumulus_pallet_parachain_system", "set_validation_data sudo_send_upward_message authorize_upgrade enact_authorized_upgrade"),
	("pallet_xcm", "send teleport_assets reserve_transfer_assets execute force_xcm_version force_default_xcm_version force_subscribe_version_notify force_unsubscribe_version_notify limited_reserve_transfer_assets limited_teleport_assets force_suspension transfer_assets claim_assets transfer_assets_using_type_and_then"),
	("orml_xcm", "send_as_sovereign"),
	("orml_xtokens", "transfer transfer_multiasset transfer_with_fee transfer_multiasset_with_fee transfer_multicurrencies transfer_multiassets"),
	("pallet_message_queue", "reap_page execute_overweight"),
	("cumulus_pallet_xcm", ""), ("orml_unknown_tokens", ""), ("staging_parachain_info", ""), ("pallet_transaction_payment", ""), ("pallet_evm_chain_id", ""), ("cumulus_pallet_aura_ext", ""), ("pallet_aura", ""), ("pallet_authorship", ""), ("cumulus_pallet_xcmp_queue", "suspend_xcm_execution resume_xcm_execution update_suspend_threshold update_drop_threshold update_resume_threshold"),
];
fn kind(field: &str) -> &'static str {
	match field {
		"dest" | "to" | "target" | "who" | "source" | "from" => "AccountId",
		"currency_id" | "asset_a" | "asset_b" | "asset_id" | "asset" | "asset_in" | "asset_out" | "pool_id" | "currency" | "assets_a" => "AssetId",
		"amount" | "value" | "amount_a" | "amount_b" | "balance" | "new_free" | "new_reserved" => "u128",
		"keep_alive" => "bool",
		_ => "()",
	}
}
type Calls = BTreeMap<String, Vec<String>>;
fn own() -> BTreeMap<String, Calls> {
	let mut out = BTreeMap::new();
	for d in std::fs::read_dir("/repo/pallets").unwrap().map(|d| d.unwrap().path()) {
		let (toml, lib) = (d.join("Cargo.toml"), d.join("src/lib.rs"));
		if !toml.exists() || !lib.exists() { continue }
		let t = std::fs::read_to_string(&toml).unwrap();
		let name = t.lines().find_map(|l| l.strip_prefix("name")).map(|l| l.trim_start_matches([' ', '=']).trim().trim_matches(['"', '\'']).replace('-', "_")).unwrap();
		let mut calls = Calls::new();
		fn walk(items: &[syn::Item], calls: &mut Calls) {
			for i in items {
				match i {
					syn::Item::Mod(m) => if let Some((_, x)) = &m.content { walk(x, calls) },
					syn::Item::Impl(i) if i.attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().replace(' ', "") == "#[pallet::call]") => for x in &i.items {
						if let syn::ImplItem::Fn(f) = x {
							if !f.attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("call_index")) && !matches!(f.vis, syn::Visibility::Public(_)) { continue }
							calls.insert(f.sig.ident.to_string(), f.sig.inputs.iter().skip(1).filter_map(|a| match a { syn::FnArg::Typed(t) => match &*t.pat { syn::Pat::Ident(i) => Some(i.ident.to_string().trim_start_matches('_').to_string()), _ => None }, _ => None }).collect());
						}
					},
					_ => {}
				}
			}
		}
		walk(&read(lib.to_str().unwrap()).items, &mut calls);
		out.insert(name, calls);
	}
	out
}
/// every `a::Call::b` in the text
fn mentions(t: TokenStream, out: &mut BTreeSet<(String, String)>) {
	let v: Vec<TokenTree> = t.into_iter().collect();
	for (k, x) in v.iter().enumerate() {
		if let TokenTree::Group(g) = x { mentions(g.stream(), out) }
		let id = |n: usize| match v.get(n) { Some(TokenTree::Ident(i)) => Some(i.to_string()), _ => None };
		if let (Some(a), Some(c), Some(b)) = (id(k), id(k + 3), id(k + 6)) { if c == "Call" { out.insert((a, b)); } }
	}
}
fn main() {
	// which pallets the runtime has
	let mut pallets: Vec<(String, String, String)> = vec![];
	for i in read(&format!("{RT}/lib.rs")).items {
		let syn::Item::Macro(m) = i else { continue };
		if m.mac.path.segments.last().unwrap().ident != "construct_runtime" { continue }
		let body = m.mac.tokens.into_iter().filter_map(|x| match x { TokenTree::Group(g) => Some(g.stream()), _ => None }).last().unwrap();
		let mut cur: Vec<TokenTree> = vec![];
		for x in body.into_iter().chain(Some(TokenTree::Punct(proc_macro2::Punct::new(',', proc_macro2::Spacing::Alone)))) {
			if !matches!(&x, TokenTree::Punct(p) if p.as_char() == ',') { cur.push(x); continue }
			if cur.is_empty() { continue }
			let text: Vec<String> = cur.drain(..).map(|x| x.to_string()).collect();
			let inst = text.iter().find(|x| x.starts_with("Instance")).cloned().unwrap_or_default();
			pallets.push((text[0].clone(), text[2].clone(), inst));
		}
	}
	assert!(pallets.len() > 50, "{pallets:?}");
	// their calls
	let mut mods: BTreeMap<String, Calls> = BTreeMap::new();
	for (p, calls) in OUTSIDE {
		let mut c = Calls::new();
		for x in calls.split(' ').filter(|x| !x.is_empty()) { let (n, f) = x.split_once('(').unwrap_or((x, "")); c.insert(n.into(), f.trim_end_matches(')').split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()); }
		mods.insert(p.to_string(), c);
	}
	mods.extend(own());
	for f in ["system", "xcm"] {
		let mut m = BTreeSet::new();
		mentions(std::fs::read_to_string(format!("{RT}/{f}.rs")).unwrap().parse().unwrap(), &mut m);
		for (p, c) in m { mods.entry(p).or_default().entry(c).or_default(); }
	}
	let used: BTreeSet<String> = pallets.iter().map(|p| p.1.clone()).collect();
	let mut text = String::new();
	for p in &used {
		let calls = mods.entry(p.clone()).or_default();
		let body: String = calls.iter().map(|(n, f)| format!("{n} {{ {} }}, ", f.iter().map(|f| format!("{f}: {}", kind(f))).collect::<Vec<_>>().join(", "))).collect();
		text += &format!("pub mod calls_{p} {{ #[allow(unused_imports)] use super::*; #[allow(non_camel_case_types, dead_code)] #[derive(Clone, Debug, PartialEq)] pub enum Call {{ {body} #[doc(hidden)] __None }} }}\n");
	}
	for p in mods.keys().filter(|p| !used.contains(*p)) { text += &format!("pub mod calls_{p} {{ pub enum Call {{ {} __None }} }}\n", mods[p].keys().map(|n| format!("#[allow(non_camel_case_types)] {n} {{}}, ")).collect::<String>()); }
	text += "#[derive(Clone, Debug, PartialEq)] pub enum RuntimeCall {\n";
	for (n, p, _) in &pallets { text += &format!("\t{n}(calls_{p}::Call),\n") }
	text += "}\n/// pallet and call\npub const CALLS: &[(&str, &str)] = &[\n";
	let mut make = String::new();
	let mut k = 0;
	for (n, p, _) in &pallets {
		for (c, f) in &mods[p] {
			text += &format!("\t(\"{n}\", \"{c}\"),\n");
			let (mut assets, mut who) = (0, 0);
			let set: Vec<String> = f.iter().map(|f| match kind(f) {
				"AccountId" => { who += 1; if f == "dest" || f == "to" || f == "target" { format!("{f}: dest.clone()") } else { format!("{f}: other.clone()") } }
				"AssetId" => { assets += 1; format!("{f}: {}", if assets == 1 { "a" } else { "b" }) }
				"u128" => format!("{f}: amount"),
				"bool" => format!("{f}: amount % 2 == 1"),
				_ => format!("{f}: ()"),
			}).collect();
			let _ = who;
			make += &format!("\t\t{k} => RuntimeCall::{n}(calls_{p}::Call::{c} {{ {} }}),\n", set.join(", "));
			k += 1;
		}
	}
	text += &format!("];\n#[allow(unused_variables)]\npub fn make(k: usize, dest: &AccountId, other: &AccountId, a: AssetId, b: AssetId, amount: u128) -> RuntimeCall {{\n\tmatch k {{\n{make}\t\t_ => unreachable!(),\n\t}}\n}}\n");
	// the calls under their crates' names
	text += "#[allow(unused_imports, non_snake_case)] pub mod names { use super::*;\n";
	for p in mods.keys() {
		text += &match p.as_str() {
			"frame_system" => "pub mod frame_system { pub use ::fsystem::*; pub use super::super::calls_frame_system::Call; }\n".to_string(),
			_ => format!("pub mod {p} {{ pub use super::super::parts::{p}::*; pub use super::super::calls_{p}::Call; }}\n"),
		};
	}
	text += "}\npub mod parts {\n";
	for p in mods.keys().filter(|p| *p != "frame_system") { text += &format!("#[allow(unused_imports)] pub mod {p} {{ pub use crate::extra::{p}::*; }}\n"); }
	text += "}\n";
	// crates without parts of their own here
	let have = std::fs::read_to_string("src/lib.rs").unwrap();
	println!("cargo:rerun-if-changed=src/lib.rs");
	text += "pub mod none { ";
	for p in mods.keys().filter(|p| *p != "frame_system" && !have.contains(&format!("pub mod {p} {{"))) { text += &format!("pub mod {p} {{}} "); }
	text += "}\n";
	write("calls.rs", &text);

	let w = |file: &str, roots: &[&str], given: &[&str], aliases: &[(&str, &str, &str)]| write(&format!("{file}.rs"), &extract(&format!("{RT}/{file}.rs"), &Want { roots, given, configs: &[], aliases, crates: &[] }));
	w("system", &["CallFilter", "ProxyType"], &["Runtime", "RuntimeCall"], &[
		("frame_system::Config", "BaseCallFilter", "RtFilter"), ("pallet_proxy::Config", "ProxyType", "RtProxy"),
		("pallet_collator_selection::Config", "UpdateOrigin", "CollatorUpdate"), ("pallet_identity::Config", "ForceOrigin", "IdentityForce"), ("pallet_identity::Config", "RegistrarOrigin", "IdentityRegistrar"), ("pallet_identity::Config", "UsernameAuthorityOrigin", "IdentityUsernames"),
		("pallet_transaction_multi_payment::Config", "AcceptedCurrencyOrigin", "PaymentCurrencies"), ("pallet_transaction_pause::Config", "UpdateOrigin", "PauseUpdate"), ("pallet_state_trie_migration::Config", "ControlOrigin", "TrieControl"),
	]);
	w("xcm", &["SafeCallFilter"], &["Runtime", "RuntimeCall"], &[("cumulus_pallet_xcmp_queue::Config", "ControllerOrigin", "XcmpController"), ("orml_xcm::Config", "SovereignOrigin", "XcmSovereign"), ("pallet_xcm::Config", "AdminOrigin", "XcmAdmin")]);
	w("governance", &["OriginPrivilegeCmp", "TreasuryApproveOrigin", "MoreThanHalfCouncil", "MajorityOfCouncil", "AllCouncilMembers", "MoreThanHalfTechCommittee", "SuperMajorityTechCommittee", "AllTechnicalCommitteeMembers"], &["Runtime", "OriginCaller"], &[
		("pallet_treasury::Config", "ApproveOrigin", "TreasuryApprove"), ("pallet_treasury::Config", "RejectOrigin", "TreasuryReject"), ("pallet_treasury::Config", "SpendOrigin", "TreasurySpend"), ("pallet_preimage::Config", "ManagerOrigin", "PreimageManager"), ("pallet_scheduler::Config", "ScheduleOrigin", "SchedulerSchedule"), ("pallet_scheduler::Config", "OriginPrivilegeCmp", "SchedulerCmp"),
		("pallet_collective::Config<CouncilCollective>", "SetMembersOrigin", "CouncilSetMembers"), ("pallet_collective::Config<TechnicalCollective>", "SetMembersOrigin", "TechSetMembers"),
		("pallet_democracy::Config", "ExternalOrigin", "DemExternal"), ("pallet_democracy::Config", "ExternalMajorityOrigin", "DemExternalMajority"), ("pallet_democracy::Config", "ExternalDefaultOrigin", "DemExternalDefault"), ("pallet_democracy::Config", "SubmitOrigin", "DemSubmit"), ("pallet_democracy::Config", "FastTrackOrigin", "DemFastTrack"), ("pallet_democracy::Config", "InstantOrigin", "DemInstant"), ("pallet_democracy::Config", "CancellationOrigin", "DemCancellation"), ("pallet_democracy::Config", "BlacklistOrigin", "DemBlacklist"), ("pallet_democracy::Config", "CancelProposalOrigin", "DemCancelProposal"), ("pallet_democracy::Config", "VetoOrigin", "DemVeto"),
	]);
	w("assets", &[], &["Runtime", "RuntimeOrigin"], &[
		("orml_vesting::Config", "VestedTransferOrigin", "VestingTransfer"), ("pallet_asset_registry::Config", "RegistryOrigin", "RegistryRegister"), ("pallet_asset_registry::Config", "UpdateOrigin", "RegistryUpdate"), ("pallet_uniques::Config", "ForceOrigin", "UniquesForce"), ("pallet_uniques::Config", "CreateOrigin", "UniquesCreate"),
		("pallet_omnipool::Config", "AuthorityOrigin", "OmnipoolAuthority"), ("pallet_omnipool::Config", "TechnicalOrigin", "OmnipoolTechnical"), ("pallet_circuit_breaker::Config", "TechnicalOrigin", "BreakerTechnical"), ("pallet_ema_oracle::Config", "AuthorityOrigin", "OracleAuthority"), ("pallet_duster::Config", "BlacklistUpdateOrigin", "DusterBlacklist"),
		("pallet_omnipool_liquidity_mining::Config", "CreateOrigin", "OmnipoolLmCreate"), ("pallet_xyk_liquidity_mining::Config", "CreateOrigin", "XykLmCreate"), ("pallet_dca::Config", "TechnicalOrigin", "DcaTechnical"), ("pallet_route_executor::Config", "TechnicalOrigin", "RouterTechnical"), ("pallet_stableswap::Config", "AuthorityOrigin", "StableAuthority"), ("pallet_bonds::Config", "IssueOrigin", "BondsIssue"), ("pallet_staking::Config", "AuthorityOrigin", "StakingAuthority"), ("pallet_lbp::Config", "CreatePoolOrigin", "LbpCreate"), ("pallet_referrals::Config", "AuthorityOrigin", "ReferralsAuthority"),
	]);
}
