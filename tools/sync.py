#!/usr/bin/env python3
"""Writes /verif/build/ws: a cargo workspace over /repo's crates (symlinked, unmodified), the
stand-ins for polkadot-sdk in /verif/mini, and the harnesses in /verif/harness.

Nothing of /repo is copied except what has to lose a module that needs the real node client
(common/helpers lib.rs). Everything is derived again on every run."""
import json, os, re, sys, tomllib

ROOT = os.environ.get("VERIF_ROOT", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = f"{ROOT}/build/ws"

def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v, ensure_ascii=False)

def dump(tables):
    return "".join(f"[{n}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in t.items()) + "\n" for n, t in tables)

def load(p):
    with open(p, "rb") as f:
        return tomllib.load(f)

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.remove(path)
    elif os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)

def link(target, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        os.remove(path)
    os.symlink(target, path)

root = load(f"{REPO}/Cargo.toml")
shared = dict(root["workspace"]["dependencies"])

# stand-ins: whole crates in mini/, and one-file re-exports in mini/facades ("//deps:" and "//ver:" lines)
mini = {}
if os.path.exists(f"{ROOT}/mini/READY"):
    for d in sorted(os.listdir(f"{ROOT}/mini")):
        if os.path.exists(f"{ROOT}/mini/{d}/Cargo.toml"):
            mini[load(f"{ROOT}/mini/{d}/Cargo.toml")["package"]["name"]] = f"mini/{d}"
    facades = [f[:-3] for f in sorted(os.listdir(f"{ROOT}/mini/facades")) if f.endswith(".rs")]
    for f in facades:
        mini[f] = f"facades/{f}"
    for f in facades:
        src = open(f"{ROOT}/mini/facades/{f}.rs", encoding="utf-8").read()
        opt = {k: v.split() for k, v in re.findall(r"^//(deps|ver): (.*)$", src, re.M)}
        deps = {k: {"workspace": True} for k in ["mf", "parity-scale-codec", "scale-info"] + opt.get("deps", [])}
        write(f"{WS}/facades/{f}/Cargo.toml", dump([
            ("package", {"name": f, "version": opt.get("ver", ["0.1.0"])[0], "edition": "2021", "publish": False}),
            ("dependencies", deps), ("features", {"default": ["std"], "std": []})]))
        link(f"{ROOT}/mini/facades/{f}.rs", f"{WS}/facades/{f}/src/lib.rs")
        if os.path.isdir(f"{ROOT}/mini/facades/{f}.d"):
            for x in os.listdir(f"{ROOT}/mini/facades/{f}.d"):
                link(f"{ROOT}/mini/facades/{f}.d/{x}", f"{WS}/facades/{f}/src/{x}")

deps = {}
for k, v in shared.items():
    if k in mini:
        deps[k] = {"path": mini[k]}
    elif isinstance(v, dict) and ("git" in v or "path" in v):
        continue
    else:
        deps[k] = v
for k, d in mini.items():
    deps.setdefault(k, {"path": d})
for k in ("serde", "serde_json"):
    deps.setdefault(k, "1")

members = []
if os.path.islink(f"{WS}/pallets"):
    for x in ("pallets", "common/primitives", "runtime/common"):
        if os.path.islink(f"{WS}/{x}"):
            os.remove(f"{WS}/{x}")
link(f"{ROOT}/mini", f"{WS}/mini")
link(f"{ROOT}/harness", f"{WS}/harness")
members += list(mini.values())
for d in sorted(os.listdir(f"{ROOT}/harness")):
    if os.path.exists(f"{ROOT}/harness/{d}/Cargo.toml"):
        if mini or "frame-support" not in open(f"{ROOT}/harness/{d}/Cargo.toml").read():
            members.append(f"harness/{d}")

link(f"{REPO}/pallets/handles/src", f"{WS}/pallets/handles/src")
members.append("pallets/handles/src/handles-utils")
link(f"{REPO}/node/cli-opt", f"{WS}/node/cli-opt")

# crates of /repo that run on the stand-ins: their own source, a manifest derived from theirs
crates = {}  # package name -> directory under /repo
if mini:
    for top in ["pallets/" + p for p in sorted(os.listdir(f"{REPO}/pallets"))] + ["common/primitives", "runtime/common"]:
        if os.path.exists(f"{REPO}/{top}/Cargo.toml"):
            crates[load(f"{REPO}/{top}/Cargo.toml")["package"]["name"]] = top
crates["handles-utils"] = "pallets/handles/src/handles-utils"
RPC = ["handles", "messages", "msa", "schemas", "stateful-storage", "frequency-tx-payment"]
if mini:
    crates["common-helpers"] = "common/helpers"
    crates["system-runtime-api"] = "runtime/system-runtime-api"
    for p in RPC:
        for d in ("rpc", "runtime-api"):
            if os.path.exists(f"{REPO}/pallets/{p}/src/{d}/Cargo.toml"):
                crates[load(f"{REPO}/pallets/{p}/src/{d}/Cargo.toml")["package"]["name"]] = f"pallets/{p}/src/{d}"

def home(pkg):
    """where a crate of /repo lies in the workspace"""
    return f"nested/{pkg}" if "/src/" in crates[pkg] and pkg != "handles-utils" else crates[pkg]

AVAILABLE = {"log", "serde", "serde_json", "smallvec", "twox-hash", "rand", "parking_lot", "handles-utils", "apache-avro", "thiserror"}

def resolve(name, spec):
    """the dependency as the workspace can satisfy it, or None"""
    if not isinstance(spec, dict):
        spec = {"version": spec}
    extra = {k: v for k, v in spec.items() if k in ("features", "optional")}
    if spec.get("workspace"):
        base = shared.get(name, {})
        base = base if isinstance(base, dict) else {"version": base}
        spec = {**base, **{k: v for k, v in spec.items() if k != "workspace"}}
    pkg = spec.get("package", name)
    extra.pop("optional", None)
    if pkg in mini:
        return {"package": pkg, "path": os.path.relpath(f"{WS}/{mini[pkg]}", "/")}
    if pkg in crates and "path" in spec:
        f = [x for x in extra.get("features", []) if x not in ("std", "runtime-benchmarks", "try-runtime")]
        return {"package": pkg, "path": os.path.relpath(f"{WS}/{home(pkg)}", "/"), **({"features": f} if f else {})}
    if pkg in AVAILABLE:
        r = {k: v for k, v in spec.items() if k in ("version", "package", "features", "default-features")}
        return {**r, **extra}
    return None

def manifest_for(top):
    m = load(f"{REPO}/{top}/Cargo.toml")
    tables = [("package", {**{k: v for k, v in m["package"].items() if k in ("name", "version", "edition")}, "publish": False})]
    every = {}
    for sect in ("dependencies", "dev-dependencies"):
        d = {}
        for k, v in m.get(sect, {}).items():
            r = resolve(k, v)
            if r is not None:
                r = dict(r)
                if "path" in r:
                    r["path"] = "/" + r["path"]
                d[k] = r
        if sect == "dependencies":
            for k in ("parity-scale-codec", "scale-info"):
                d.setdefault(k, {"path": f"{WS}/{mini[k]}"})
        every.update(d)
        tables.append((sect, d))
    feats = {}
    for k, v in m.get("features", {}).items():
        feats[k] = [x for x in v if x.split("/")[0].rstrip("?") in every and every[x.split("/")[0].rstrip("?")].get("package") in crates
                    and x.endswith("/" + k) and k not in ("std", "runtime-benchmarks", "try-runtime")]
    feats["default"] = ["std"]
    for k in ("std", "runtime-benchmarks", "try-runtime", "test", "frequency-lint-check"):
        feats.setdefault(k, [])
    tables.append(("features", feats))
    return dump(tables)

for pkg, top in crates.items():
    if pkg == "handles-utils":
        continue
    to = home(pkg)
    write(f"{WS}/{to}/Cargo.toml", manifest_for(top))
    if os.path.exists(f"{REPO}/{top}/README.md"):
        link(f"{REPO}/{top}/README.md", f"{WS}/{to}/README.md")
    members.append(to)
    if top != "runtime/common":
        link(f"{REPO}/{top}/src", f"{WS}/{to}/src")
        continue
    # the weights of polkadot-sdk's own pallets are left out; the test network's constants are a
    # crate of their own
    for to, feature in ((top, "frequency"), (f"{top}-testnet", "frequency-testnet")):
        text = manifest_for(top).replace('"default" = ["std"]', f'"default" = ["std", "{feature}"]')
        if to != top:
            text = text.replace('"name" = "common-runtime"', '"name" = "common-runtime-testnet"')
            members.append(to)
        write(f"{WS}/{to}/Cargo.toml", text)
        os.makedirs(f"{WS}/{to}/src/weights", exist_ok=True)
        for x in os.listdir(f"{REPO}/{top}/src"):
            if x != "weights":
                link(f"{REPO}/{top}/src/{x}", f"{WS}/{to}/src/{x}")
        keep = {"block_weights", "extrinsic_weights", "pallet_balances", "pallet_utility"}
        for x in os.listdir(f"{REPO}/{top}/src/weights"):
            if x[:-3] in keep:
                link(f"{REPO}/{top}/src/weights/{x}", f"{WS}/{to}/src/weights/{x}")
        mod = open(f"{REPO}/{top}/src/weights/mod.rs", encoding="utf-8").read()
        write(f"{WS}/{to}/src/weights/mod.rs", re.sub(r"^pub mod (\w+);", lambda r: r.group(0) if r.group(1) in keep else f"pub mod {r.group(1)} {{ pub struct SubstrateWeight<T>(core::marker::PhantomData<T>); }}", mod, flags=re.M))

# the runtime itself, once as it is built for mainnet and once as for the test network; the wasm
# binary is absent
if mini:
    m = load(f"{REPO}/runtime/frequency/Cargo.toml")
    d = {}
    for k, v in m["dependencies"].items():
        r = resolve(k, v)
        if r is not None:
            r = dict(r)
            r.pop("features", None)
            if "path" in r:
                r["path"] = "/" + r["path"]
            d[k] = r
    for name, feats in (("mainnet", ["std", "frequency"]), ("testnet", ["std", "frequency-testnet"])):
        every = {f: [] for f in ["std", "runtime-benchmarks", "try-runtime", "frequency-lint-check", "test", *m["features"]]}
        every["default"] = feats
        own = dict(d)
        if name == "testnet":
            own["common-runtime"] = {"package": "common-runtime-testnet", "path": f"{WS}/runtime/common-testnet"}
        write(f"{WS}/runtime/{name}/Cargo.toml", dump([
            ("package", {"name": f"rt-{name}", "version": "0.0.0", "edition": m["package"]["edition"], "publish": False, "build": "build.rs"}),
            ("dependencies", own), ("features", every)]))
        link(f"{REPO}/runtime/frequency/src", f"{WS}/runtime/{name}/src")
        write(f"{WS}/runtime/{name}/build.rs", '''fn main() {
	let out = std::env::var("OUT_DIR").unwrap();
	std::fs::write(format!("{out}/wasm_binary.rs"), "pub const WASM_BINARY: Option<&[u8]> = None;").unwrap();
	println!("cargo:rustc-env=MF_FEATURES=%s");
	println!("cargo:rerun-if-changed=build.rs");
}
''' % ",".join(feats))
        members.append(f"runtime/{name}")

# the node's own RPC: one directory of the node, which as a whole cannot be built here
if mini:
    src = f"{REPO}/node/service/src/rpc"
    d = {"jsonrpsee": f"{WS}/facades/jsonrpsee", "parity-scale-codec": f"{WS}/{mini['parity-scale-codec']}", "common-helpers": f"{WS}/{home('common-helpers')}",
         "common-primitives": f"{WS}/{home('common-primitives')}", "system-runtime-api": f"{WS}/{home('system-runtime-api')}"}
    for p in RPC:
        for x in (f"pallet-{p}-rpc", f"pallet-{p}-runtime-api"):
            if x in crates:
                d[x] = f"{WS}/{home(x)}"
    for k in ("futures", "pallet-transaction-payment-rpc", "sc-client-api", "sc-client-db", "sc-consensus-manual-seal", "sc-rpc", "sc-transaction-pool-api", "sp-api", "sp-block-builder", "sp-blockchain", "sp-core", "sp-runtime", "sp-std", "substrate-frame-rpc-system"):
        d[k] = f"{WS}/facades/{k}"
    write(f"{WS}/node-rpc/Cargo.toml", dump([
        ("package", {"name": "node-rpc", "version": "0.0.0", "edition": "2021", "publish": False}),
        ("dependencies", {k: {"path": v} for k, v in d.items()}), ("features", {"default": ["std"], "std": []})]))
    write(f"{WS}/node-rpc/src/lib.rs", "pub mod rpc;\n#[path = \"rpc/frequency_rpc.rs\"]\npub mod frequency_rpc;\n")
    link(src, f"{WS}/node-rpc/src/rpc")
    members.append("node-rpc")

# the block sealing of a development node: one file of the node, among stand-ins of its own
if os.path.exists(f"{ROOT}/mini/node/dev.rs"):
    write(f"{WS}/node-dev/Cargo.toml", dump([
        ("package", {"name": "node-dev", "version": "0.0.0", "edition": "2021", "publish": False}),
        ("dependencies", {"futures": {"version": "0.3.30", "default-features": False, "features": ["std", "async-await"]},
                          "tokio": {"version": "1.25", "default-features": False, "features": ["rt", "time", "test-util", "sync"]},
                          "log": "0.4", "cli-opt": {"path": f"{WS}/node/cli-opt"}})]))
    for x, y in (("lib", "dev"), ("world", "world")):
        link(f"{ROOT}/mini/node/{y}.rs", f"{WS}/node-dev/src/{x}.rs")
    link(f"{REPO}/node/service/src", f"{WS}/node-dev/src/real")
    members.append("node-dev")

# common/helpers without the rpc module
manifest = load(f"{REPO}/common/helpers/Cargo.toml")
hdir = f"{WS}/avro-helpers"
names = set(os.listdir(f"{REPO}/common/helpers/src"))
need = {k: v for k, v in manifest["dependencies"].items()
        if k != "jsonrpsee" and not k.startswith(("sp-", "common-")) and k not in mini}
write(f"{hdir}/Cargo.toml", dump([
    ("package", {**{k: v for k, v in manifest["package"].items() if k != "metadata"}, "name": "avro-helpers"}),
    ("lib", {"name": "common_helpers"}), ("dependencies", need), ("features", {"default": ["std"], "std": []})]))
os.makedirs(f"{hdir}/src", exist_ok=True)
for n in os.listdir(f"{hdir}/src"):
    if n not in names:
        os.remove(f"{hdir}/src/{n}")
for n in names - {"lib.rs"}:
    link(f"{REPO}/common/helpers/src/{n}", f"{hdir}/src/{n}")
lib = open(f"{REPO}/common/helpers/src/lib.rs", encoding="utf-8").read()
write(f"{hdir}/src/lib.rs", re.sub(r"^((?:pub )?mod rpc;)", r"#[cfg(any())] \1", lib, flags=re.M))
members.append("avro-helpers")

profile = {"opt-level": 1, "debug": "line-tables-only", "debug-assertions": True, "overflow-checks": True,
           "incremental": False, "panic": "unwind"}
tables = [("workspace", {"members": members, "resolver": "2"}), ("workspace.dependencies", deps),
          ("profile.dev", profile), ("profile.dev.build-override", {"opt-level": 0}),]
write(f"{WS}/Cargo.toml", dump(tables))

lock = f"{ROOT}/tools/Cargo.lock"
if not os.path.exists(f"{WS}/Cargo.lock"):
    src = lock if os.path.exists(lock) else f"{REPO}/Cargo.lock"
    write(f"{WS}/Cargo.lock", open(src, encoding="utf-8").read())

# Cargo goes by modification times; a file whose content changed while its time did not advance would
# be missed. Crates whose content differs from what was last seen lose their fingerprints.
import hashlib, shutil

def digest(top):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".md")):
                h.update(os.path.join(d, f)[len(top):].encode())
                with open(os.path.join(d, f), "rb") as x:
                    h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()

seen_path = f"{ROOT}/build/seen.json"
seen = json.load(open(seen_path)) if os.path.exists(seen_path) else {}
now = {pkg: digest(f"{REPO}/{top}") for pkg, top in crates.items()}
now["avro-helpers"] = digest(f"{REPO}/common/helpers")
now["cli-opt"] = digest(f"{REPO}/node/cli-opt")
now["node-rpc"] = digest(f"{REPO}/node/service/src/rpc")
now["node-dev"] = digest(f"{REPO}/node/service/src")
now["runtime"] = digest(f"{REPO}/runtime")
changed = [p for p in now if p in seen and seen[p] != now[p]]
if "runtime" in changed:
    changed += ["rt-mainnet", "rt-testnet", "common-runtime-testnet"]
    changed += [load(f"{ROOT}/harness/{d}/Cargo.toml")["package"]["name"] for d in os.listdir(f"{ROOT}/harness") if os.path.exists(f"{ROOT}/harness/{d}/Cargo.toml")]
fp = f"{ROOT}/build/target/debug/.fingerprint"
if changed and os.path.isdir(fp):
    for x in os.listdir(fp):
        if x.rsplit("-", 1)[0] in changed:
            shutil.rmtree(f"{fp}/{x}")
if now != seen:
    with open(seen_path, "w") as f:
        json.dump(now, f)
