use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::*;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use tiny_keccak::{Hasher, Keccak};

fn keccak(s: &str) -> [u8; 32] {
	let (mut k, mut o) = (Keccak::v256(), [0u8; 32]);
	k.update(s.as_bytes());
	k.finalize(&mut o);
	o
}
fn selector(s: &str) -> u32 { let k = keccak(s); u32::from_be_bytes([k[0], k[1], k[2], k[3]]) }
fn hex(x: &[u8]) -> String { x.iter().map(|b| format!("{b:02x}")).collect() }

/// Text that may stand in a macro argument: signatures, any unicode, block-size boundaries of the hash.
fn text() -> impl Strategy<Value = String> {
	prop_oneof![
		4 => "[a-zA-Z_][a-zA-Z0-9_]{0,20}\\((address|uint256|bytes|bool|string|uint8\\[\\])?(,(address|uint256|bytes32|\\(uint256,bool\\))){0,4}\\)",
		3 => any::<String>(),
		2 => "[\\x00-\\x7f]{0,40}",
		1 => (130usize..=140, any::<char>()).prop_map(|(n, c)| std::iter::repeat(c).take(n).collect()),
		1 => "[a-z]{0,300}",
		1 => Just(String::new()),
	]
}
/// One of the spellings of the same string as a Rust literal.
fn literal(s: &str, style: u8) -> String {
	match style % 3 {
		0 => format!("{s:?}"),
		1 if !s.contains('\r') && !s.contains("\"##") => format!("r##\"{s}\"##"),
		2 => { let mut o = String::from("\""); for c in s.chars() { write!(o, "\\u{{{:x}}}", c as u32).unwrap(); } o + "\"" }
		_ => format!("{s:?}"),
	}
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
	Hash(String, u8),
	Enum(Vec<(String, u8)>, bool),
	/// (address id, spelling, kind) per tuple member, probe addresses as (high bits, low u64)
	Names(Vec<(u64, u8, u8)>, Vec<(u64, u64)>),
}
fn items() -> impl Strategy<Value = Item> {
	let id = prop_oneof![3 => 0u64..4096, 2 => any::<u64>(), 1 => Just(u64::MAX)];
	prop_oneof![
		4 => (text(), any::<u8>()).prop_map(|(s, k)| Item::Hash(s, k)),
		2 => (vec((text(), any::<u8>()), 1..12), any::<bool>()).prop_map(|(v, d)| Item::Enum(v, d)),
		1 => (vec((id, any::<u8>(), 0u8..8), 1..8), vec((prop_oneof![4 => Just(0u64), 1 => any::<u64>()], prop_oneof![1 => any::<u64>(), 3 => 0u64..4096]), 0..4)).prop_map(|(v, a)| Item::Names(v, a)),
	]
}
fn int_literal(n: u64, style: u8) -> String {
	match style % 5 { 0 => format!("{n}"), 1 => format!("{n:#x}"), 2 => format!("{n}u64"), 3 => format!("{n:#b}"), _ => { let s = n.to_string(); if s.len() > 3 { format!("{}_{}", &s[..s.len() - 3], &s[s.len() - 3..]) } else { s } } }
}
/// Rust source printing one line per observation, and the lines the specification demands.
fn program(k: usize, it: &Item, src: &mut String, want: &mut Vec<String>) {
	match it {
		Item::Hash(s, st) => {
			let l = literal(s, *st);
			write!(src, "{{ let a: [u8; 32] = precompile_utils_macro::keccak256!({l}); let b: &[u8; 32] = module_evm_utility_macro::keccak256!({l}); h({k}, &a); h({k}, b); }}\n").unwrap();
			want.push(hex(&keccak(s)));
			want.push(hex(&keccak(s)));
		}
		Item::Enum(v, explicit) => {
			let mut seen = std::collections::BTreeSet::new();
			let v: Vec<_> = v.iter().filter(|(s, _)| seen.insert(s.clone())).collect();
			write!(src, "{{ #[module_evm_utility_macro::generate_function_selector] #[derive(Debug, Clone, Copy, PartialEq, Eq)] #[repr(u32)] {} enum E {{ {} }}\n", if *explicit { "pub" } else { "" }, v.iter().enumerate().map(|(n, (s, st))| format!("V{n} = {},", literal(s, *st))).collect::<String>()).unwrap();
			for (n, (s, _)) in v.iter().enumerate() {
				write!(src, "println!(\"{k} {{}} {{:?}}\", E::V{n} as u32, E::V{n});\n").unwrap();
				want.push(format!("{} V{n}", selector(s)));
			}
			src.push_str("}\n");
		}
		Item::Names(v, probes) => {
			// distinct ids only: the generated enum needs distinct discriminants
			let mut seen = std::collections::BTreeSet::new();
			let v: Vec<_> = v.iter().filter(|(id, _, _)| seen.insert(*id)).collect();
			let mut names: Vec<(u64, String)> = vec![];
			let mut ty = String::new();
			let mut decl = String::new();
			for (n, (id, st, kind)) in v.iter().enumerate() {
				let l = int_literal(*id, *st);
				match kind {
					0 => write!(ty, "PrecompileSetStartingWith<AddressU64<{l}>, P{n}>,").unwrap(),
					1 | 2 => { write!(decl, "pub struct I{n}; ").unwrap(); names.push((*id, format!("I{n}"))); write!(ty, "PrecompileAt<AddressU64<{l}>, CollectivePrecompile<u8, I{n}>, (u8, u16)>,").unwrap() }
					3 => { names.push((*id, format!("P{n}"))); write!(ty, "PrecompileAt<AddressU64<{l}>, P{n}<u8>, (u8, u16)>,").unwrap() }
					_ => { names.push((*id, format!("P{n}"))); write!(ty, "PrecompileAt<AddressU64<{l}>, P{n}>,").unwrap() }
				}
				write!(decl, "pub struct P{n}<T = ()>(core::marker::PhantomData<T>); ").unwrap();
			}
			if names.is_empty() { return }
			write!(src, "{{ mod m {{ {decl} pub struct PrecompileAt<T, U, V = ()>(core::marker::PhantomData<(T, U, V)>); pub struct PrecompileSetStartingWith<T, U>(core::marker::PhantomData<(T, U)>); pub struct AddressU64<const N: u64>; pub struct CollectivePrecompile<T, I>(core::marker::PhantomData<(T, I)>);\n#[precompile_utils_macro::precompile_name_from_address] pub type Precompiles = ({ty}); }}\n").unwrap();
			let probes: Vec<(u64, u64)> = probes.iter().copied().chain(v.iter().map(|x| (0, x.0))).chain(v.iter().take(1).map(|x| (1, x.0))).chain(v.iter().take(1).map(|x| (1 << 63, x.0))).chain(v.iter().take(2).map(|x| (0, x.0.wrapping_add(1)))).collect();
			for (hi, lo) in probes {
				let mut a = [0u8; 20];
				a[4..12].copy_from_slice(&hi.to_be_bytes());
				a[12..].copy_from_slice(&lo.to_be_bytes());
				if hi == 1 << 63 { a[4] = 0; a[0] = 1; }
				write!(src, "println!(\"{k} {{:?}}\", m::PrecompileName::from_address(sp_core::H160({a:?})));\n").unwrap();
				want.push(match names.iter().find(|(id, _)| hi == 0 && *id == lo) { Some((_, n)) => format!("Some({n})"), None => "None".into() });
			}
			src.push_str("}\n");
		}
	}
}
fn compile_and_run(items: &[Item]) -> Vec<Res> {
	let dir = std::env::temp_dir().join(format!("chk-macros-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let r = compile_and_run_in(&dir, items);
	let _ = std::fs::remove_dir_all(&dir);
	r
}
fn compile_and_run_in(dir: &Path, items: &[Item]) -> Vec<Res> {
	let mut src = String::from("fn h(k: usize, x: &[u8]) { print!(\"{k} \"); for b in x { print!(\"{b:02x}\"); } println!(); }\n");
	let mut want = vec![];
	let mut main = String::new();
	for (k, i) in items.iter().enumerate() {
		let mut w = vec![];
		write!(src, "fn f{k}() {{\n").unwrap();
		program(k, i, &mut src, &mut w);
		src.push_str("}\n");
		write!(main, "f{k}();").unwrap();
		want.push(w);
	}
	write!(src, "fn main() {{ {main} }}\n").unwrap();
	let file = dir.join("gen.rs");
	std::fs::write(&file, &src).unwrap();
	let harness = concat!(env!("CARGO_MANIFEST_DIR"), "/../..");
	let out = Command::new("cargo").args(["build", "--offline", "-q", "-p", "macros-gen"]).current_dir(harness).env("GEN_FILE", &file).output().expect("cargo");
	if !out.status.success() {
		let err = String::from_utf8_lossy(&out.stderr).chars().take(1500).collect::<String>();
		if items.len() == 1 { return vec![Err(format!("the expansion does not compile: {err}"))] }
		// find the offending item by bisection
		let (l, r) = items.split_at(items.len() / 2);
		let mut v = compile_and_run_in(dir, l);
		if v.iter().any(|x| x.is_err()) { v.extend(r.iter().map(|_| Ok(()))); } else { v.extend(compile_and_run_in(dir, r)); }
		if v.iter().all(|x| x.is_ok()) { eprintln!("generated program refused only as a whole: {err}"); std::process::exit(2) }
		return v;
	}
	let exe = Path::new(harness).join("../target/debug/macros-gen");
	let out = Command::new(exe).output().expect("run");
	let text = String::from_utf8_lossy(&out.stdout).into_owned();
	let mut got: Vec<Vec<String>> = items.iter().map(|_| vec![]).collect();
	for l in text.lines() { let (k, v) = l.split_once(' ').unwrap(); got[k.parse::<usize>().unwrap()].push(v.to_string()); }
	got.into_iter().zip(want).map(|(g, w)| if g == w { Ok(()) } else { let n = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len())); Err(format!("observation {n}: got {:?}, expected {:?}", g.get(n), w.get(n))) }).collect()
}

// ---- build script helpers -------------------------------------------------------------------
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Head { Branch(String), Detached(String) }
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Layout { depth: u8, git_at: u8, kind: u8, head: Head, packages: Vec<(String, (u16, u16, u16))>, pick: u8, version: (u16, u16, u16) }
fn layouts() -> impl Strategy<Value = Layout> {
	let seg = "[a-z][a-z0-9._-]{0,12}[a-z0-9]";
	let head = prop_oneof![3 => (seg, seg).prop_map(|(a, b)| Head::Branch(format!("refs/heads/{a}/{b}"))), 2 => seg.prop_map(|a| Head::Branch(format!("refs/heads/{a}"))), 1 => "[0-9a-f]{40}".prop_map(Head::Detached)];
	(1u8..5, 0u8..5, 0u8..4, head, vec(("[a-z][a-z0-9-]{0,10}[a-z]", any::<(u16, u16, u16)>()), 1..6), any::<u8>(), any::<(u16, u16, u16)>()).prop_map(|(depth, git_at, kind, head, packages, pick, version)| Layout { depth, git_at: git_at.min(depth), kind, head, packages, pick, version })
}
static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn scratch() -> PathBuf {
	let d = std::env::temp_dir().join(format!("chk-bsu-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
	std::fs::create_dir_all(&d).unwrap();
	d
}
fn probe(args: &[&str], manifest: &Path, cwd: &Path, version: &str) -> (bool, String) {
	let exe = std::env::current_exe().unwrap().with_file_name("bsu-probe");
	let o = Command::new(exe).args(args).current_dir(cwd).env("CARGO_MANIFEST_DIR", manifest).env("CARGO_PKG_VERSION", version).env("GIT_CEILING_DIRECTORIES", "/").env("GIT_DIR", "/nonexistent-git-dir").output().expect("probe");
	(o.status.success(), format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)))
}
fn head_case(l: &Layout, m: &mut Meter) -> Res {
	let root = scratch();
	let r = head_case_in(&root, l, m);
	let _ = std::fs::remove_dir_all(&root);
	r
}
fn head_case_in(root: &Path, l: &Layout, m: &mut Meter) -> Res {
	let mut dirs = vec![root.to_path_buf()];
	for i in 0..l.depth { let d = dirs.last().unwrap().join(format!("d{i}")); std::fs::create_dir(&d).unwrap(); dirs.push(d); }
	let manifest = dirs.last().unwrap().clone();
	let at = dirs[l.git_at as usize].clone();
	let text = match &l.head { Head::Branch(b) => format!("ref: {b}"), Head::Detached(s) => s.clone() };
	let real = root.join("realgit");
	let want: Option<Vec<PathBuf>> = match l.kind {
		0 => { std::fs::create_dir(at.join(".git")).unwrap(); std::fs::write(at.join(".git/HEAD"), &text).unwrap(); Some(vec![at.join(".git/HEAD")]) }
		1 | 2 => {
			let wt = real.join("worktrees/wt");
			std::fs::create_dir_all(&wt).unwrap();
			std::fs::write(wt.join("HEAD"), &text).unwrap();
			std::fs::write(at.join(".git"), format!("gitdir: {}\n", wt.display())).unwrap();
			Some(vec![wt.join("HEAD")])
		}
		_ => None,
	};
	let (ok, out) = probe(&["head"], &manifest, &manifest, "0.0.0");
	ensure_that!(ok, "helper failed");
	let lines: Vec<&str> = out.lines().collect();
	let reruns: Vec<&str> = lines.iter().filter_map(|l| l.strip_prefix("cargo:rerun-if-changed=")).collect();
	match (want, &l.head) {
		(Some(mut w), Head::Branch(b)) => {
			m.nontrivial();
			w.push(if l.kind == 0 { at.join(".git").join(b) } else { real.join(b) });
			let w: Vec<String> = w.iter().map(|p| p.display().to_string()).collect();
			ensure_eq!(reruns, w, "files whose change reruns the build");
		}
		(Some(_), Head::Detached(_)) | (None, _) => {
			// never silently: the build is told, or the head file itself is watched
			ensure_that!(!lines.is_empty() && (lines.iter().any(|l| l.starts_with("cargo:warning=")) || !reruns.is_empty()), "neither a warning nor a rerun rule for a detached head or a missing repository: {out}");
			ensure_that!(reruns.iter().all(|p| Path::new(p).exists()), "a file that does not exist is watched: {out}");
		}
	}
	Ok(())
}
fn keys_case(l: &Layout, m: &mut Meter) -> Res {
	let root = scratch();
	let dir = root.join("node");
	std::fs::create_dir(&dir).unwrap();
	let mut lock = String::from("version = 3\n\n");
	let mut pk = l.packages.clone();
	pk.sort();
	pk.dedup_by(|a, b| a.0 == b.0);
	for (n, v) in &pk { write!(lock, "[[package]]\nname = \"{n}\"\nversion = \"{}.{}.{}\"\n\n", v.0, v.1, v.2).unwrap(); }
	std::fs::write(root.join("Cargo.lock"), lock).unwrap();
	let present = l.pick % 4 != 0;
	let (name, v) = if present { m.nontrivial(); let p = &pk[l.pick as usize % pk.len()]; (p.0.clone(), format!("{}.{}.{}", p.1.0, p.1.1, p.1.2)) } else { ("absent-package-zz9".into(), "unknown".into()) };
	let own = format!("{}.{}.{}", l.version.0, l.version.1, l.version.2);
	let (ok, out) = probe(&["keys", &name], &dir, &dir, &own);
	let _ = std::fs::remove_dir_all(&root);
	ensure_that!(ok, "helper failed");
	let line = out.lines().find_map(|l| l.strip_prefix("cargo:rustc-env=SUBSTRATE_CLI_IMPL_VERSION=")).ok_or("no version line")?;
	// no git information here: release and commit are unknown
	ensure_eq!(line, format!("unknown-unknown runtime {v} node {own} x86_64-linux-gnu"), "version string");
	Ok(())
}

fn main() {
	let id = std::env::args().nth(1).expect("property id");
	let mut c = Ctx::new(&id);
	match id.as_str() {
		"C10" => {
			c.check("runtime_selector", "run-time hash and selector of any text against an independent Keccak-256; non-trivial: non-empty text", 60_000, 2_000_000, text, |s, m| {
				if !s.is_empty() { m.nontrivial(); }
				ensure_eq!(module_evm_utility::sha3_256(s), keccak(s), "hash of {s:?}");
				ensure_eq!(module_evm_utility::get_function_selector(s), selector(s), "selector of {s:?}");
				Ok(())
			});
			c.batch("expansions", "generated programs using the hash, selector-enum and precompile-name macros are compiled with the real macros and run; every printed value is compared with the specification; non-trivial: anything but the empty text", 900, 60_000, 900, items(), compile_and_run, |i| !matches!(i, Item::Hash(s, _) if s.is_empty()));
		}
		"C16" => {
			c.check("git_head", "files watched by the build for a repository, worktree, detached head or no repository at any depth; non-trivial: on a branch", 800, 20_000, layouts, head_case);
			c.check("version_keys", "version string assembled from a generated lock file; non-trivial: the runtime package is listed", 400, 10_000, layouts, keys_case);
		}
		_ => { eprintln!("unknown property {id}"); std::process::exit(2) }
	}
	std::process::exit(c.finish());
}
