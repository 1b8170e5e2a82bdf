#!/usr/bin/env python3
"""plant.py ID [CHECK...]: tries a planted bug out in a scratch copy of /repo: applies it, runs the stable tests, its demo
(changed and unchanged) and the check of its property (or the named checks). With --quiet FILE it applies FILE (a diff that
changes no behaviour) instead and runs every named check, which must stay quiet."""

import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def copy():
    t = tempfile.mkdtemp(prefix="plant.")
    sh(f"cp -a /repo {t}/repo", "/")
    return t, t + "/repo"


def tests(r):
    o = sh("RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline 2>&1", r)
    bad = [l for l in o.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED") or l.startswith("error")]
    n = sum(1 for l in o.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("ok"))
    return n, bad, o.stdout


def check(c, r):
    o = sh(f"VERIF_REPO={r} python3 {HERE}/check.py {c}", HERE, timeout=2000)
    return o.returncode, o.stdout + o.stderr


def main():
    a = sys.argv[1:]
    quiet = a[0] == "--quiet"
    if quiet:
        a = a[1:]
    d = a[0] if quiet else os.path.join(HERE, "seeded", a[0])
    patch = d if quiet else d + "/patch.diff"
    t, r = copy()
    try:
        if not quiet:
            o = sh(f"bash {d}/demo.sh", r)
            print("demo unchanged:", o.returncode, "" if o.returncode == 0 else o.stdout[-800:] + o.stderr[-1500:])
        o = sh(f"git apply {os.path.abspath(patch)}", r)
        if o.returncode:
            print("APPLY FAILED", o.stderr)
            return 2
        n, bad, out = tests(r)
        print("tests ok:", n, "bad:", bad[:6], "" if not bad else out[-1500:])
        if not quiet:
            o = sh(f"bash {d}/demo.sh", r, timeout=300)
            print("demo changed:", o.returncode, (o.stdout + o.stderr).strip()[-200:])
        cs = a[1:] or [json.load(open(d + "/meta.json"))["property"]]
        for c in cs:
            rc, out = check(c, r)
            print(f"== {c} exit {rc}")
            print("\n".join(l[:300] for l in out.splitlines()[:12]))
    finally:
        shutil.rmtree(t, ignore_errors=True)


sys.exit(main())
