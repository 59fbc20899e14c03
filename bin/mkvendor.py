#!/usr/bin/env python3
"""Lay the crates that are already in the local cargo cache out as a cargo directory source
(/verif/target/vendor), so that the harness resolves offline with any toolchain's index."""
import glob, hashlib, json, os, sys, tarfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
dst = os.path.join(root, "target", "vendor")
cache = os.path.join(os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")), "registry", "cache", "index.crates.io-6f17d22bba15001f")
if not os.path.isdir(cache):
    alt = "/root/.cargo/registry/cache/index.crates.io-6f17d22bba15001f"
    cache = alt
os.makedirs(dst, exist_ok=True)
n = 0
for c in sorted(glob.glob(cache + "/*.crate")):
    name = os.path.basename(c)[:-6]
    out = os.path.join(dst, name)
    chk = os.path.join(out, ".cargo-checksum.json")
    if os.path.exists(chk):
        continue
    data = open(c, "rb").read()
    with tarfile.open(c) as t:
        if name.startswith(("windows", "winapi-", "web-sys", "plotters", "criterion")):
            # never compiled here (other platforms, benches); only their manifests matter to the resolver
            os.makedirs(out + "/src", exist_ok=True)
            with open(out + "/Cargo.toml", "wb") as f:
                f.write(t.extractfile(name + "/Cargo.toml").read())
            open(out + "/src/lib.rs", "w").close()
        else:
            t.extractall(dst)
    with open(chk, "w") as f:
        json.dump({"package": hashlib.sha256(data).hexdigest(), "files": {}}, f)
    n += 1
print("vendored", n, "crates into", dst)
