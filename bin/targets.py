"""Which package decides which property. The /repo directories behind each package are derived from the
path dependencies of harness/checks/<dir> on harness/wrap/* (crates built from the repository's own sources)."""
import os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "harness")
# property -> directory under harness/checks
CHECK = {p: "math" for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12 C13 C14 C15".split()}
CHECK.update(C10="macros", C16="macros")
CHECK.update(C17="xyk", C18="stableswap", C19="omnipool")
CHECK.update(C20="lbp", C21="router")
CHECK.update(C22="otc", C23="bonds", C24="oracle", C25="breaker", C26="dynfees", C27="registry")
CHECK.update(C28="referrals")
CHECK.update(C29="staking")
CHECK.update(C30="dca")
CHECK.update(C31="xyklm")
CHECK.update(C32="omnilm")
CHECK.update(C33="duster")
CHECK.update(C34="claims")
CHECK.update(C35="txpause")
CHECK.update(C36="collators")
CHECK.update(C37="evmacc")
CHECK.update(C38="evmfee")
CHECK.update(C39="xcmlimit")
CHECK.update(C40="currencies")
CHECK.update(C41="nft")
CHECK.update(C42="otcsettle")
CHECK.update(C43="txpay")
CHECK.update(C44="democracy")
CHECK.update(C45="democracy")
CHECK.update(C46="adapterprice")
CHECK.update(C47="adapterprice")
CHECK.update(C48="xcm")
CHECK.update(C49="xcm")
CHECK.update(C50="xcm")
CHECK.update(C51="hooks")
CHECK.update(C52="hooks")
CHECK.update(C53="math")
CHECK.update(C54="abi")
CHECK.update(C55="evm")
CHECK.update(C56="evm")
CHECK.update(C57="evm")
CHECK.update(C58="rt")
CHECK.update(C59="rt")
CHECK.update(C60="calls")
CHECK.update(C61="rt")
CHECK.update(C62="upgrade")
EXTRA_BUILD = {"macros": ["module-evm-utility-macro", "precompile-utils-macro"]}

def _manifest(d):
    t = open(os.path.join(d, "Cargo.toml")).read()
    name = re.search(r'^name = "([^"]+)"', t, re.M).group(1)
    lib = re.search(r'^path = "(/repo/[^"]+)"', t, re.M)
    deps = [os.path.normpath(os.path.join(d, p)) for p in re.findall(r'path = "(\.[^"]+)"', t.split("[dev-dependencies]")[0])]
    return name, lib and lib.group(1), deps
def _wraps(d, seen):
    for p in _manifest(d)[2]:
        if p not in seen and os.path.exists(os.path.join(p, "Cargo.toml")):
            seen.add(p)
            _wraps(p, seen)
    return seen
WATCH = {}
for w in sorted(os.listdir(os.path.join(H, "wrap"))):
    n, lib, _ = _manifest(os.path.join(H, "wrap", w))
    WATCH[n] = [os.path.relpath(os.path.dirname(lib), "/repo")] if lib else []
WATCH["hydradx-evm"] = ["runtime/hydradx/src/evm"]
WATCH["hydradx-rt"] = ["runtime/hydradx/src"]
WATCH["hydradx-calls"] = ["runtime/hydradx/src", "pallets"]
WATCH["precompile-utils-macro"].append("precompiles/utils/macro/docs")
TARGETS = {}
for pid, d in CHECK.items():
    base = os.path.join(H, "checks", d)
    crates = sorted({_manifest(p)[0] for p in _wraps(base, set()) if os.path.dirname(p) == os.path.join(H, "wrap")} | set(EXTRA_BUILD.get(d, [])))
    TARGETS[pid] = dict(build=["chk-" + d] + EXTRA_BUILD.get(d, []), bin="chk-" + d, crates=crates)
