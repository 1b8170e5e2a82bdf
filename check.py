#!/usr/bin/env python3
"""check.py <property>: analyses /repo's current sources and decides one property."""

import gc
import hashlib
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
EVD = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "analysis"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def driver():
    src = os.path.join(HERE, "driver", "mirdump.rs")
    want = hashlib.sha256(open(src, "rb").read()).hexdigest()
    b = os.path.join(HERE, "build", "mirdump")
    try:
        if open(b + ".sum").read().strip() == want and os.path.exists(b):
            return b
    except OSError:
        pass
    subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True)
    return b


class NoDump(Exception):
    """the extraction driver cannot handle the tree, which is not the tree's fault"""


def dump(out):
    """MIR, types and signatures of the crate in the release and the debug configuration"""
    drv = driver()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot + "/lib")
    procs = []
    for c, flag in (("rel", "no"), ("dbg", "yes")):
        e = dict(env, MIRDUMP_OUT=os.path.join(out, c + ".json"))
        cmd = [drv, "src/lib.rs", "--crate-name", "shard_ecs", "--edition", "2021", "--crate-type", "lib"]
        cmd += ["-Zmir-opt-level=0", "-C", "debug-assertions=" + flag, "-C", "overflow-checks=" + flag]
        cmd += ["--sysroot", sysroot, "--out-dir", out, "-Awarnings"]
        procs.append((c, subprocess.Popen(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            print(o[-4000:])
            if "internal compiler error" in o or p.returncode < 0 or "panicked at" in o:
                raise NoDump(c)
            raise SystemExit(f"error: {REPO} does not compile ({c})")
    return os.path.join(out, "rel.json"), os.path.join(out, "dbg.json")


def findings():
    """known findings: property -> {key}"""
    r = {}
    p = os.path.join(HERE, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding: property="):
            pid, key = l[len("finding: property=") :].split(" ", 1)
            r.setdefault(pid, set()).add(key)
    return r


class TimeUp(KeyboardInterrupt):
    """the rules themselves do not catch it"""


def timeup(*_):
    raise TimeUp


def one(rule, sp, rel, limit):
    """what the rule has found when it is done or its time is up"""
    sp.cur, sp.rule = None, rule.__name__
    signal.signal(signal.SIGALRM, timeup)
    try:
        signal.setitimer(signal.ITIMER_REAL, max(limit, 0.1))
        with sp.guard("rule " + rule.__name__):
            rule(sp, rel)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except (TimeUp, MemoryError) as e:
        sp.open.append((rule.__name__, "?", "time limit" if isinstance(e, TimeUp) else "memory limit"))
    return [(o.rule, o.fn, o.what, o.ok, o.why, o.sp) for o in sp.obs], sp.open, sp.fns, sp.paths


def parallel(rules, sp, rel, limit):
    """each rule in a forked process, some at a time; None for a rule that exceeds the limits"""
    sys.stdout.flush()
    left, res = list(enumerate(rules)), [None] * len(rules)
    running = {}  # pipe -> (rule number, process, data)
    end = time.time() + limit
    while left or running:
        while left and len(running) < 10:
            n, rule = left.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    data = pickle.dumps(one(rule, sp, rel, end - time.time() - 10))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException as e:
                    sys.stderr.write(f"{rule.__name__}: {type(e).__name__}\n")
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (n, pid, [])
        wait = end - time.time()
        ready = select.select(list(running), [], [], wait)[0] if wait > 0 else []
        if not ready:
            break
        for r in ready:
            n, pid, data = running[r]
            d = os.read(r, 1 << 20)
            if d:
                data.append(d)
                continue
            del running[r]
            os.close(r)
            os.waitpid(pid, 0)
            if data:
                res[n] = pickle.loads(b"".join(data))
    for r, (n, pid, _) in running.items():
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
    return res


def main():
    pid = sys.argv[1]
    if "--thorough" in sys.argv[2:]:
        os.environ["VERIF_TIER"] = "thorough"
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    gc.disable()
    from spec import Crate, Ob, Spec
    import plan

    tmp = tempfile.mkdtemp(prefix="shardcheck.")
    try:
        relp, dbgp = dump(tmp)
        rel, dbg = Crate(relp, False), Crate(dbgp, True)
    except NoDump as e:
        os.makedirs(EVD, exist_ok=True)
        why = f"the extraction driver fails on this tree ({e})"
        cov = {"explanation": why, "obligations": 0, "discharged": 0, "undecided": [why]}
        with open(os.path.join(EVD, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "level": plan.LEVEL.get(pid, "other"), "coverage": cov, "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 0}, f, indent=1)
        print(f"{pid}: undecided: {why}")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    gc.enable()
    gc.freeze()
    gc.set_threshold(100000, 20, 100)
    sp = Spec(rel, dbg)
    counts = {}
    rules = plan.RULES[pid]
    limit = float(os.environ.get("VERIF_LIMIT", "7200" if tier == "thorough" else "600"))
    rules = [r if isinstance(r, tuple) else (r, "") for r in rules]
    for (rule, pattern), res in zip(rules, parallel([r for r, _ in rules], sp, rel, limit)):
        name = rule.__module__ + "." + rule.__name__
        if res is None:
            sp.open.append((rule.__name__, "?", f"rule {name}: time or memory limit"))
            counts[name] = 0
            continue
        obs, opened, fns, paths = res
        obs = [o for o in obs if re.search(pattern, o[2])]
        sp.obs += [Ob(*o) for o in obs]
        sp.open += opened
        sp.fns |= fns
        sp.paths += paths
        counts[name] = len(obs)
    bad = {}
    for o in sp.obs:
        if not o.ok:
            bad.setdefault(f"{o.rule} | {o.fn} | {o.what}", o)
    undecided = list(dict.fromkeys(sp.open))
    known = findings().get(pid, set())
    new = {k: o for k, o in bad.items() if k not in known}
    for k in sorted(known):
        if k in bad:
            print(f"KNOWN-FINDING: property={pid} {k}")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": plan.LEVEL.get(pid, "other"),
        "coverage": {
            "explanation": plan.TECH.get(pid, plan.TECH_ALL),
            "obligations": len(sp.obs),
            "discharged": sum(1 for o in sp.obs if o.ok),
            "checker_cmd": f"python3 /verif/check.py {pid}",
            "trusted_base": plan.TRUSTED,
            "rules": counts,
            "obligations_by_rule": dict(Counter(o.rule for o in sp.obs)),
            "functions_analysed": len(sp.fns),
            "functions": sorted(f for f in sp.fns if not f.startswith(("core::", "alloc::")))[:400],
            "paths": sp.paths,
            "undecided": [" | ".join(u)[:400] for u in undecided[:60]],
            "samples": [f"{o.rule} | {o.fn} | {o.what} | {o.sp}" for o in sp.obs[:: max(1, len(sp.obs) // 12)]][:14],
        },
        "assumptions": plan.ASSUME.get(pid, []) + plan.ASSUME_ALL,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {ev['coverage']['discharged']}/{len(sp.obs)} obligations over {len(sp.fns)} functions and {sp.paths} paths in {ev['wall_s']} s")
    for u in undecided[:12]:
        print("  undecided: " + " | ".join(u)[:300])
    if new:
        rep = os.path.join(EVD, pid + ".violation.txt")
        with open(rep, "w") as f:
            for k, o in new.items():
                f.write(f"{k}\n  at {o.sp}\n  {o.why}\n\n")
        for k, o in list(new.items())[:8]:
            print(f"  {k}\n    at {o.sp}: {o.why[:400]}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
