//! Small driver around proptest: deterministic from VERIF_SEED, fixed work per tier, eight worker
//! threads with derived seeds, shrinking, JSON replay files, evidence, known findings.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub mod big;
pub mod gen;
pub use big::*;
pub use proptest;

/// Per-case recorder handed to the oracle.
#[derive(Default)]
pub struct Meter {
	nontrivial: bool,
	labels: Vec<&'static str>,
	known: Vec<String>,
}
impl Meter {
	/// The case exercised what the property is about (see the check's rule).
	pub fn nontrivial(&mut self) { self.nontrivial = true; }
	pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
	/// A failure that is listed in known_findings (exact signature); recorded, not raised.
	pub fn known(&mut self, sig: &str) { self.known.push(sig.to_string()); }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure_that {
	($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
	($l:expr, $r:expr, $($a:tt)*) => {{ let (l, r) = (&$l, &$r); if l != r { return Err(format!("{}: left={:?} right={:?}", format!($($a)*), l, r)); } }};
}

struct Sub {
	name: String,
	rule: String,
	evaluations: u64,
	nontrivial: u64,
	distinct: HashSet<u64>,
	labels: BTreeMap<String, u64>,
	samples: Vec<serde_json::Value>,
}

pub struct Ctx {
	pub property: String,
	pub thorough: bool,
	pub seed: u64,
	root: String,
	replay: Option<(String, serde_json::Value)>,
	only: Option<String>,
	scale: f64,
	subs: Vec<Sub>,
	assumptions: Vec<String>,
	known: Vec<(String, String)>,
	known_hit: std::sync::Mutex<BTreeMap<String, u64>>,
	violation: Option<(String, String)>,
	start: Instant,
	workers: usize,
}

thread_local! { static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None); }

fn fnv(data: &[u8]) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in data {
		h ^= *b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h
}
fn derive_seed(seed: u64, name: &str, worker: usize) -> [u8; 32] {
	let mut s = [0u8; 32];
	s[..8].copy_from_slice(&seed.to_le_bytes());
	s[8..16].copy_from_slice(&fnv(name.as_bytes()).to_le_bytes());
	s[16..24].copy_from_slice(&(worker as u64).to_le_bytes());
	s
}

/// Run `f`, turning a panic into an error string.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default())),
	}
}

impl Ctx {
	pub fn new(property: &str) -> Self {
		std::panic::set_hook(Box::new(|info| {
			PANIC_MSG.with(|p| *p.borrow_mut() = Some(info.to_string().replace('\n', " ")));
		}));
		let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
		let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
		let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
		let mut known = vec![];
		if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
			for l in t.lines() {
				// KNOWN property=<id> sig=<signature> <text>
				if let Some(r) = l.strip_prefix("known: property=") {
					let mut it = r.splitn(3, ' ');
					let id = it.next().unwrap_or("");
					let sig = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
					if id == property {
						known.push((sig, it.next().unwrap_or("").to_string()));
					}
				}
			}
		}
		let replay = std::env::var("VERIF_REPLAY").ok().map(|p| {
			let t = std::fs::read_to_string(&p).expect("replay file");
			#[derive(serde::Deserialize)]
			struct R { check: String, input: String }
			let r: R = serde_json::from_str(&t).expect("replay json");
			(r.check, serde_json::Value::String(r.input))
		});
		let workers = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
		Ctx {
			property: property.into(), thorough, seed, root, replay, subs: vec![], assumptions: vec![], known,
			only: std::env::var("VERIF_ONLY").ok(),
			scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
			known_hit: Default::default(), violation: None, start: Instant::now(), workers,
		}
	}
	pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
	pub fn is_known(&self, sig: &str) -> bool { self.known.iter().any(|(s, _)| s == sig) }

	/// `quick`/`thorough`: number of cases. `oracle` decides one case.
	pub fn check<S, I>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, strat: impl Fn() -> S + Sync, oracle: impl Fn(&I, &mut Meter) -> Res + Sync)
	where
		S: Strategy<Value = I>,
		I: Debug + Clone + Serialize + DeserializeOwned + Send,
	{
		if self.violation.is_some() { return; }
		if let Some(o) = &self.only { if o != name { return; } }
		let known = self.known.clone();
		let run = |i: &I| -> (Meter, Res) {
			let mut m = Meter::default();
			let r = match no_panic(|| oracle(i, &mut m)) {
				Ok(Ok(())) => match m.known.iter().find(|k| !known.iter().any(|(s, _)| s == *k)) { Some(k) => Err(format!("finding {k} is not listed as known")), None => Ok(()) },
				Ok(r) => r,
				Err(p) => Err(p),
			};
			(m, r)
		};
		if let Some((c, v)) = &self.replay {
			if c == name {
				let i: I = serde_json::from_str(v.as_str().unwrap()).expect("replay input");
				let (_, r) = run(&i);
				println!("replay {name}: {i:?}\n  -> {r:?}");
				if let Err(e) = r { self.violation = Some((e, std::env::var("VERIF_REPLAY").unwrap())); }
			}
			return;
		}
		let t0 = Instant::now();
		let cases = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).max(1.0) as u32;
		let workers = self.workers;
		let per = (cases as usize + workers - 1) / workers;
		struct W<I> { evals: u64, nt: u64, distinct: HashSet<u64>, labels: BTreeMap<String, u64>, samples: Vec<I>, known: Vec<String>, fail: Option<(I, String)> }
		let stop = std::sync::atomic::AtomicBool::new(false);
		// what every worker is busy with: a case that does not come back is a failure, too
		let slots: Vec<std::sync::Mutex<Option<(Instant, I)>>> = (0..workers).map(|_| std::sync::Mutex::new(None)).collect();
		let hang = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120u64);
		let trace = std::env::var("VERIF_TRACE").ok();
		let done = std::sync::atomic::AtomicBool::new(false);
		let results: Vec<W<I>> = std::thread::scope(|sc| {
			let (slots, done, this) = (&slots, &done, &*self);
			let watch = sc.spawn(move || while !done.load(std::sync::atomic::Ordering::Relaxed) {
				std::thread::park_timeout(std::time::Duration::from_millis(500));
				for s in slots {
					let i = match &*s.lock().unwrap_or_else(|e| e.into_inner()) { Some((t, i)) if t.elapsed().as_secs() >= hang => i.clone(), _ => continue };
					this.hung(name, &serde_json::to_string(&i).unwrap(), &format!("{i:?}"), hang);
				}
			});
			let hs: Vec<_> = (0..workers).map(|w| {
				let strat = &strat;
				let (run, stop, trace) = (&run, &stop, &trace);
				let seed = derive_seed(self.seed, &format!("{}/{}", self.property, name), w);
				std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
					let cfg = Config { cases: per as u32, failure_persistence: None, max_shrink_iters: 100_000, max_shrink_time: std::env::var("VERIF_SHRINK_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(25_000), verbose: 0, max_global_rejects: 1 << 20, max_local_rejects: 1 << 20, ..Config::default() };
					let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
					let st = RefCell::new(W { evals: 0, nt: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![], known: vec![], fail: None });
					let failed = std::cell::Cell::new(false);
					let res = runner.run(&strat(), |i| {
						use std::sync::atomic::Ordering::Relaxed;
						if !failed.get() && stop.load(Relaxed) { return Ok(()) }
						if let Some(d) = trace { let _ = std::fs::write(format!("{d}/{w}.json"), serde_json::json!({"property": this.property, "check": name, "seed": this.seed, "error": "the process dies", "input": serde_json::to_string(&i).unwrap(), "debug": format!("{i:?}")}).to_string()); }
						*slots[w].lock().unwrap_or_else(|e| e.into_inner()) = Some((Instant::now(), i.clone()));
						let (m, r) = run(&i);
						*slots[w].lock().unwrap_or_else(|e| e.into_inner()) = None;
						if r.is_err() { stop.store(true, Relaxed) }
						if !failed.get() {
							let mut s = st.borrow_mut();
							s.evals += 1;
							for l in &m.labels { *s.labels.entry(l.to_string()).or_default() += 1; }
							if m.nontrivial {
								s.nt += 1;
								let h = fnv(&serde_json::to_vec(&i).unwrap_or_default());
								s.distinct.insert(h);
								if s.samples.len() < 3 { s.samples.push(i.clone()); }
							}
							s.known.extend(m.known);
						}
						match r {
							Ok(()) => Ok(()),
							Err(e) => { failed.set(true); Err(TestCaseError::fail(e)) }
						}
					});
					let mut s = st.into_inner();
					match res {
						Ok(()) => {}
						Err(TestError::Fail(reason, i)) => s.fail = Some((i, reason.to_string())),
						Err(TestError::Abort(r)) => { eprintln!("generator aborted in {w}: {r}"); std::process::exit(2); }
					}
					s
				}).unwrap()
			}).collect();
			let r = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| std::process::exit(2))).collect();
			done.store(true, std::sync::atomic::Ordering::Relaxed);
			watch.thread().unpark();
			r
		});
		let mut sub = Sub { name: name.into(), rule: rule.into(), evaluations: 0, nontrivial: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![] };
		let mut fail = None;
		for w in results {
			sub.evaluations += w.evals;
			sub.nontrivial += w.nt;
			sub.distinct.extend(w.distinct);
			for (k, v) in w.labels { *sub.labels.entry(k).or_default() += v; }
			for s in w.samples { if sub.samples.len() < 3 { let t = format!("{s:?}"); sub.samples.push(serde_json::Value::String(t.chars().take(1500).collect())); } }
			for k in w.known { *self.known_hit.lock().unwrap().entry(k).or_default() += 1; }
			if fail.is_none() { fail = w.fail; }
		}
		println!("  {:<44} cases={} nontrivial={} distinct={} {:?} {:.1}s", name, sub.evaluations, sub.nontrivial, sub.distinct.len(), sub.labels, t0.elapsed().as_secs_f64());
		if let Some((i, e)) = fail {
			self.report(name, &serde_json::to_string(&i).unwrap(), &format!("{i:?}"), e);
		} else if sub.evaluations > 0 && (sub.nontrivial as f64) < 0.01 * sub.evaluations as f64 {
			eprintln!("check {name} is vacuous: {}/{} non-trivial", sub.nontrivial, sub.evaluations);
			// a harness fault, not a verdict; only meaningful when something else did not already fail
			if std::env::var("VERIF_STRICT_VACUITY").is_ok() { std::process::exit(2); }
		}
		self.subs.push(sub);
	}

	/// Like `check`, for oracles that decide a whole batch of generated items at once (for example by
	/// compiling one generated program). A failing item is shrunk on its own.
	pub fn batch<S, I>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, per: usize, strat: S, mut decide: impl FnMut(&[I]) -> Vec<Res>, nontrivial: impl Fn(&I) -> bool)
	where
		S: Strategy<Value = I>,
		I: Debug + Clone + Serialize + DeserializeOwned,
	{
		if self.violation.is_some() { return; }
		if let Some(o) = &self.only { if o != name { return; } }
		let mut decide = |items: &[I]| -> Vec<Res> {
			match no_panic(|| decide(items)) { Ok(v) => v, Err(e) => items.iter().map(|_| Err(e.clone())).collect() }
		};
		if let Some((c, v)) = &self.replay {
			if c == name {
				let i: I = serde_json::from_str(v.as_str().unwrap()).expect("replay input");
				let r = decide(&[i.clone()]).remove(0);
				println!("replay {name}: {i:?}\n  -> {r:?}");
				if let Err(e) = r { self.violation = Some((e, std::env::var("VERIF_REPLAY").unwrap())); }
			}
			return;
		}
		let t0 = Instant::now();
		let total = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).max(1.0) as usize;
		let seed = derive_seed(self.seed, &format!("{}/{}", self.property, name), 0);
		let mut runner = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
		let mut sub = Sub { name: name.into(), rule: rule.into(), evaluations: 0, nontrivial: 0, distinct: HashSet::new(), labels: BTreeMap::new(), samples: vec![] };
		let mut fail = None;
		while (sub.evaluations as usize) < total && fail.is_none() {
			let mut trees: Vec<_> = (0..per.min(total - sub.evaluations as usize)).map(|_| strat.new_tree(&mut runner).unwrap()).collect();
			let items: Vec<I> = trees.iter().map(|t| t.current()).collect();
			let res = decide(&items);
			for i in &items {
				sub.evaluations += 1;
				if nontrivial(i) {
					sub.nontrivial += 1;
					sub.distinct.insert(fnv(&serde_json::to_vec(i).unwrap_or_default()));
					if sub.samples.len() < 3 { sub.samples.push(serde_json::Value::String(format!("{i:?}").chars().take(600).collect())); }
				}
			}
			if let Some((k, e)) = res.into_iter().enumerate().find_map(|(k, r)| r.err().map(|e| (k, e))) {
				let t = &mut trees[k];
				let mut best = (items[k].clone(), e);
				let mut steps = 0;
				if t.simplify() {
					loop {
						steps += 1;
						let cur = t.current();
						match decide(&[cur.clone()]).remove(0) {
							Err(e) => { best = (cur, e); if !t.simplify() { break } }
							Ok(()) => if !t.complicate() { break },
						}
						if steps > 60 || t0.elapsed().as_secs() > 200 { break }
					}
				}
				fail = Some(best);
			}
		}
		println!("  {:<44} cases={} nontrivial={} distinct={} {:.1}s", name, sub.evaluations, sub.nontrivial, sub.distinct.len(), t0.elapsed().as_secs_f64());
		if let Some((i, e)) = fail { self.report(name, &serde_json::to_string(&i).unwrap(), &format!("{i:?}"), e); }
		self.subs.push(sub);
	}
	/// A case does not come back: report it and end the process.
	fn hung(&self, name: &str, input: &str, debug: &str, s: u64) -> ! {
		let path = format!("{}/evidence/replays/{}-{name}.json", self.root, self.property);
		let _ = std::fs::create_dir_all(format!("{}/evidence/replays", self.root));
		let e = format!("no answer within {s} s");
		let _ = std::fs::write(&path, serde_json::to_string_pretty(&serde_json::json!({"property": self.property, "check": name, "seed": self.seed, "error": e, "input": input, "debug": debug})).unwrap());
		println!("  FAILED {name}: {e}\n  input: {debug}\nVIOLATION property={} replay={path}", self.property);
		std::process::exit(1)
	}
	fn report(&mut self, name: &str, input: &str, debug: &str, e: String) {
		let dir = format!("{}/evidence/replays", self.root);
		let _ = std::fs::create_dir_all(&dir);
		let path = format!("{dir}/{}-{}.json", self.property, name);
		let body = serde_json::json!({"property": self.property, "check": name, "seed": self.seed, "error": e, "input": input, "debug": debug});
		let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
		println!("  FAILED {name}: {e}\n  minimal input: {debug}");
		self.violation = Some((e, path));
	}

	/// One fixed, exhaustively enumerated space; `f` returns the number of cases it decided.
	pub fn exhaustive(&mut self, name: &str, rule: &str, f: impl FnOnce(&mut Vec<String>) -> Result<u64, String>) {
		if self.violation.is_some() { return; }
		if let Some(o) = &self.only { if o != name { return; } }
		if let Some((c, _)) = &self.replay { if c != name { return; } }
		let mut samples = vec![];
		let r = match no_panic(|| f(&mut samples)) { Ok(r) => r, Err(e) => Err(e) };
		match r {
			Ok(n) => {
				println!("  {name:<44} enumerated={n}");
				let mut d = HashSet::new();
				for i in 0..n { d.insert(i); }
				self.subs.push(Sub { name: name.into(), rule: rule.into(), evaluations: n, nontrivial: n, distinct: d, labels: BTreeMap::new(), samples: samples.into_iter().take(3).map(serde_json::Value::String).collect() });
			}
			Err(e) => {
				let dir = format!("{}/evidence/replays", self.root);
				let _ = std::fs::create_dir_all(&dir);
				let path = format!("{dir}/{}-{}.json", self.property, name);
				let body = serde_json::json!({"property": self.property, "check": name, "error": e, "input": ""});
				let _ = std::fs::write(&path, body.to_string());
				println!("  FAILED {name}: {e}");
				self.violation = Some((e, path));
			}
		}
	}

	/// Print verdict, write the evidence, return the exit code.
	pub fn finish(self) -> i32 {
		let out = std::env::var("VERIF_EVIDENCE_OUT").unwrap_or_else(|_| format!("{}/evidence/{}.json", self.root, self.property));
		let evals: u64 = self.subs.iter().map(|s| s.evaluations).sum();
		let dist: u64 = self.subs.iter().map(|s| s.distinct.len() as u64).sum();
		let rule = self.subs.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect::<Vec<_>>().join("; ");
		let samples: Vec<_> = self.subs.iter().flat_map(|s| s.samples.iter().take(2).map(move |x| serde_json::json!({"check": s.name, "case": x}))).collect();
		let per: Vec<_> = self.subs.iter().map(|s| serde_json::json!({"check": s.name, "cases": s.evaluations, "nontrivial": s.nontrivial, "distinct": s.distinct.len(), "classes": s.labels})).collect();
		let hits = self.known_hit.lock().unwrap().clone();
		let ev = serde_json::json!({
			"property": self.property, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed, "level": "exploration",
			"coverage": {"evaluations": evals, "distinct_nontrivial": dist, "rule": rule, "samples": samples, "per_check": per, "known_finding_hits": hits},
			"assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": self.violation.is_some() as u32,
		});
		if self.replay.is_none() && self.only.is_none() {
			let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
			std::fs::write(&out, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
		}
		for (sig, text) in &self.known {
			println!("KNOWN-FINDING: property={} sig={} {} (hit {} times)", self.property, sig, text, hits.get(sig).copied().unwrap_or(0));
		}
		match self.violation {
			Some((e, path)) => {
				println!("  reason: {e}");
				println!("VIOLATION property={} replay={}", self.property, path);
				1
			}
			None => 0,
		}
	}
}

/// Sample one value (for tools).
pub fn sample<S: Strategy>(s: &S, seed: u64) -> S::Value {
	let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &derive_seed(seed, "sample", 0)));
	s.new_tree(&mut r).unwrap().current()
}
