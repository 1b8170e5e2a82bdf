"""What the library as a whole depends on: the crates the compiler loads for it in every configuration, the
dependencies Cargo.toml requests, and items with state or symbols outside of the values clients own."""

import json
import os
import subprocess
import tempfile
import tomllib
from spec import basename

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = {"core", "alloc", "compiler_builtins", "rustc_std_workspace_core"}


def manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)


def optional(m):
    return {n for n, d in m.get("dependencies", {}).items() if isinstance(d, dict) and d.get("optional")}


def activates(m, feature, seen=()):
    """the optional dependencies a feature pulls in"""
    if feature in seen:
        return set()
    r = set()
    for x in m.get("features", {}).get(feature, []):
        x = x.split("/")[0].removesuffix("?")
        if x.startswith("dep:"):
            r.add(x[4:])
        elif x in m.get("features", {}):
            r |= activates(m, x, (*seen, feature))
        elif x in optional(m):
            r.add(x)
    return r


def dumps(sp, m):
    """the library as compiled with each feature that needs no dependency"""
    own = [f for f in m.get("features", {}) if f != "default" and not activates(m, f)]
    sets = [[f] for f in own] + ([own] if len(own) > 1 else [])
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    for fs in sets:
        with tempfile.TemporaryDirectory(prefix="shardcrate.") as t:
            cmd = [HERE + "/build/mirdump", "src/lib.rs", "--crate-name", "shard_ecs", "--edition", "2021", "--crate-type", "lib", "-Awarnings"]
            cmd += ["--sysroot", root, "--out-dir", t] + [a for f in fs for a in ("--cfg", f'feature="{f}"')]
            e = dict(os.environ, LD_LIBRARY_PATH=root + "/lib", MIRDUMP_OUT=t + "/d.json")
            p = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True)
            if p.returncode:
                sp.undecided("features " + ", ".join(fs), "does not compile: " + p.stderr[-200:])
                continue
            d = json.load(open(t + "/d.json"))
            yield "features " + ", ".join(fs), d["crates"], d["statics"]


def freestanding(sp, rel):
    m = manifest()
    at = {"path": "crate", "sp": "src/lib.rs"}
    man = {"path": "Cargo.toml", "sp": "Cargo.toml"}
    confs = [("release", sp.rel.p.crates, sp.rel.p.statics), ("debug", sp.dbg.p.crates, sp.dbg.p.statics), *dumps(sp, m)]
    for name, crates, statics in confs:
        sp.rule = "only core and alloc are linked"
        sp.check(True, f"{name}: {len(crates)} crates loaded", "", at)
        for c, direct in crates:
            sp.check(c in CORE, f"{name}: crate {c} is available without the standard library", "the library references it", at)
        sp.rule = "no global state"
        sp.check(True, f"{name}: {len(statics)} static items", "", at)
        for s in statics:
            f = {"path": s["path"], "sp": s["sp"]}
            if s["foreign"]:
                sp.check(False, f"{name}: {s['path']} is defined by the library", "the symbol has to be supplied by something else", f)
            elif s["ty"]:
                sp.check(not s["mut"], f"{name}: static {s['path']} is immutable", "it is shared by all registries", f)
                sp.check(s["freeze"], f"{name}: static {s['path']} has no interior mutability", f"its type is {s['ty']}: it is shared by all registries", f)
                sp.check(not s["thread_local"], f"{name}: static {s['path']} is not thread local", "it is shared by the registries of a thread", f)
    sp.rule = "no dependency unless requested"
    tables = [("dependencies", m.get("dependencies", {})), ("build-dependencies", m.get("build-dependencies", {}))]
    for t, d in m.get("target", {}).items():
        tables += [(f"target.{t}.{k}", d.get(k, {})) for k in ("dependencies", "build-dependencies")]
    n = 0
    for t, d in tables:
        for k, v in d.items():
            n += 1
            sp.check(isinstance(v, dict) and v.get("optional"), f"{t}: {k} is optional", "it is pulled in by every build", man)
    sp.check(not activates(m, "default"), "the default features pull in no crate", f"they request {sorted(activates(m, 'default'))}", man)
    for f in m.get("features", {}):
        if f not in ("derive", "default"):
            x = activates(m, f)
            sp.check(not x, f"feature {f} pulls in no crate", f"it requests {sorted(x)}", man)
    sp.check(True, f"{n} dependencies examined", "", man)
