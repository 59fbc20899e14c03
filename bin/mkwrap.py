#!/usr/bin/env python3
"""Write harness/wrap/<crate>/Cargo.toml: the repository's own crate source, built against the offline stand-ins.
Developer tool: its output is committed; checks do not run it."""
import os, sys
try: import tomllib
except ImportError: import tomli as tomllib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, S = os.path.join(ROOT, "harness/wrap"), os.path.join(ROOT, "harness/shims")
CRATES = sys.argv[1:] or [l.strip() for l in open(os.path.join(ROOT, "bin/wrapped.txt")) if l.strip()]
ws = tomllib.load(open("/repo/Cargo.toml", "rb"))["workspace"]["dependencies"]
vendor = {}
for d in os.listdir(os.path.join(ROOT, "target/vendor")):
    vendor[d.rsplit("-", 1)[0] if d.rsplit("-", 1)[-1][:1].isdigit() else d] = 1
SKIP = {"frame-benchmarking", "sp-tracing", "sp-api", "frame-try-runtime", "substrate-wasm-builder", "derive_more"}
wrapped = {}
for c in CRATES:
    t = tomllib.load(open(f"/repo/{c}/Cargo.toml", "rb"))
    wrapped[t["package"]["name"]] = c
def dirname(name): return wrapped[name].replace("pallets/", "pallet-").replace("/", "-") if wrapped[name].startswith("pallets/") else wrapped[name].replace("/", "-")
OLD = {"hydra-dx-math": "math"}
def dep(name, spec):
    pkg = spec.get("package", name) if isinstance(spec, dict) else name
    if isinstance(spec, dict) and spec.get("workspace"):
        pkg = ws.get(name, {}).get("package", name) if isinstance(ws.get(name), dict) else name
    if name in SKIP: return None
    if isinstance(spec, dict) and spec.get("optional") and name not in ("serde", "sp-io", "sp-core", "pallet-timestamp", "pallet-balances"): return None
    ren = f', package = "{pkg}"' if pkg != name else ""
    if pkg in OLD: return f'{{ path = "../{OLD[pkg]}"{ren} }}'
    if pkg in wrapped: return f'{{ path = "../{dirname(pkg)}"{ren} }}'
    for cand in (pkg, name):
        if os.path.isdir(os.path.join(S, cand)): return f'{{ path = "../../shims/{cand}"{ren} }}'
    if pkg in vendor:
        f = {"parity-scale-codec": ["derive", "max-encoded-len"], "scale-info": ["derive", "serde"], "serde": ["derive"], "primitive-types": ["codec", "scale-info"], "rug": ["num-traits"], "fixed": ["num-traits"]}.get(pkg, [])
        v = {"parity-scale-codec": "3", "scale-info": "2", "serde": "1", "fixed": "=1.15.0"}.get(pkg, "*")
        return f'{{ version = "{v}"{ren}, features = {f!r} }}'.replace("'", '"')
    print("  no source for", pkg, "wanted by", cur); return None
for c in CRATES:
    cur = c
    t = tomllib.load(open(f"/repo/{c}/Cargo.toml", "rb"))
    name = t["package"]["name"]
    lib = t.get("lib", {}).get("path", "src/lib.rs")
    o = [f'[package]\nname = "{name}"\nversion = "{t["package"]["version"]}"\nedition = "2021"\n[lib]\npath = "/repo/{c}/{lib}"']
    o.append('[features]\ndefault = ["std"]\nstd = []\nruntime-benchmarks = []\ntry-runtime = []\n[dependencies]')
    seen = set()
    for sec in ("dependencies", "dev-dependencies"):
        if sec == "dev-dependencies": o.append("[dev-dependencies]")
        for n, s in t.get(sec, {}).items():
            if sec == "dev-dependencies" and n in seen: continue
            d = dep(n, s)
            if d: o.append(f"{n} = {d}"); seen.add(n)
    d = os.path.join(W, dirname(name)); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write("\n".join(o) + "\n")
