"""Rule framework: looks functions up in the analysed crate, runs the dataflow over them from an arbitrary
abstract state and records one obligation per rule instance."""

import os
import re
import traceback
import time
from terms import *
from engine import Engine, Prog, St, Ev, LoopEv, Unsupported, Infeasible, NeedFork, PANIC
import models

some, none, ok, err = models.some, models.none, models.ok, models.err
F = models.F
I_ = I
# the thorough tier enlarges the enumerated shapes
DEEP = os.environ.get("VERIF_TIER") == "thorough"


class Missing(Exception):
    pass


def basename(s):
    s = re.sub(r"<.*", "", s.strip())
    return s.split("::")[-1]


class Crate:
    """one configuration of the analysed crate"""

    def __init__(self, path, debug):
        self.p = Prog(path)
        self.debug = debug
        self.index = {}
        for f in self.p.fns:
            if "name" not in f or not f.get("inst"):
                continue
            st = self.p.tystr(f["self_ty"]) if isinstance(f.get("self_ty"), int) else ""
            tr = f["trait_impl"].split("::")[-1] if f.get("trait_impl") else ""
            td = f["trait_def"].split("::")[-1] if f.get("trait_def") else ""
            f["_self"], f["_trait"] = st, tr
            key = (st if st.startswith(("(", "&", "[")) else basename(st) if st else "", tr or td, f["name"])
            self.index.setdefault(key, []).append(f)

    def fn(self, ty, name, trait=""):
        c = [f for f in self.index.get((ty, trait, name), []) if f["inst"] in self.p.insts]
        if len(c) != 1:
            raise Missing(f"{'<%s as %s>' % (ty, trait) if trait else ty}::{name}: {len(c)} definitions found")
        return c[0]

    def has(self, ty, name, trait=""):
        return any(f["inst"] in self.p.insts for f in self.index.get((ty, trait, name), []))


class Ob:
    __slots__ = ("rule", "fn", "what", "ok", "why", "sp")

    def __init__(self, rule, fn, what, ok, why, sp):
        self.rule, self.fn, self.what, self.ok, self.why, self.sp = rule, fn, what, ok, why, sp


class Guard:
    def __init__(self, sp, what):
        self.sp, self.what = sp, what

    def __enter__(self):
        return self

    def __exit__(self, ty, e, tb):
        if ty is None or issubclass(ty, (KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        self.sp.open.append((self.sp.rule, self.sp.fname(), f"{self.what}: {ty.__name__}: {e}"))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exception(ty, e, tb)
        return True


class Spec:
    """collects obligations"""

    def __init__(self, rel, dbg):
        self.rel, self.dbg = rel, dbg
        self.obs = []
        self.fns = set()
        self.stats = {}
        self.rule = "?"
        self.cur = None
        self.paths = 0
        self.open = []

    def undecided(self, what, why="", f=None):
        """the analysis has no answer for this obligation"""
        f = f or self.cur
        self.open.append((self.rule, self.fname(f), what + ": " + why))

    def guard(self, what=""):
        """a part of a rule that may be left undecided without affecting the others"""
        return Guard(self, what)

    # ---- obligations
    def at(self, f):
        self.cur = f

    def fname(self, f=None):
        f = f or self.cur
        if f is None:
            return "?"
        return f["path"].replace("crate::", "", 1)

    def check(self, cond, what, why="", f=None, sp=None):
        f = f or self.cur
        self.obs.append(Ob(self.rule, self.fname(f), what, bool(cond), why, sp or (f["sp"] if f else "?")))
        return bool(cond)

    # ---- running
    def engine(self, crate, contracts=None, models_extra=None):
        m = models.M
        if models_extra:
            m = dict(m)
            m.update(models_extra)
        e = Engine(crate.p, m, contracts, debug=crate.debug)
        e.limit = 60000
        return e

    def run(self, crate, f, st, args, eng=None, contracts=None, models_extra=None):
        eng = eng or self.engine(crate, contracts, models_extra)
        eng.top = None
        self.fns.add(f["path"])
        outs = eng.run(f["inst"], st, args)
        self.fns |= eng.stats["fns"]
        self.paths += len(outs)
        for n, sp in eng.unknown:
            if not n.startswith("crate::") and n not in UNKNOWN_OK:
                raise Unsupported("call to " + n + " at " + sp)
        outs = [o for o in outs if o[1] != "unreachable"]
        return outs

    def obs1(self, crate, ty, name, st, args, trait="", **kw):
        """value of a pure single-outcome accessor"""
        f = crate.fn(ty, name, trait)
        outs = [o for o in self.run(crate, f, st, args, **kw) if o[1] == "ret"]
        if len(outs) != 1:
            # merge boolean results
            raise Unsupported(f"{ty}::{name} has {len(outs)} outcomes")
        return outs[0][2]

    def truth(self, crate, ty, name, st, args, trait="", **kw):
        """value of a boolean observer as True/False/None (undecided) in st"""
        f = crate.fn(ty, name, trait)
        res = set()
        for s, k, v in self.run(crate, f, st, args, **kw):
            if k != "ret":
                res.add("panic")
                continue
            d = s.facts.settle(v)
            res.add(d)
        return res.pop() if len(res) == 1 else None


UNKNOWN_OK = set()


def param(name, lo=None, hi=None):
    t = mk("param", 0, name)
    if lo is not None or hi is not None:
        RNG[t] = (lo, hi)
    return t


def cell(st, name, val):
    """a memory cell holding val; returns a reference to it"""
    p = mk("param", 0, "&" + name)
    st.heap[mk("obj", p)] = val
    return p


def rdref(st, r):
    if r.op == "ref":
        return st.read(r.a[0], r.a[1])
    return st.rd(mk("obj", r))


def same(st, a, b):
    """a and b are equal on this path"""
    if a is b:
        return True
    if isint(a) or isint(b):
        return st.facts.settle(eqi(a, b)) is True
    if a.op in ("struct", "tuple") and b.op == a.op and a.a[:-1] == b.a[:-1]:
        return all(same(st, x, y) for x, y in zip(a.a[-1], b.a[-1]))
    if a.op == "variant" and b.op == "variant":
        return a.a[1] == b.a[1] and len(a.a[4]) == len(b.a[4]) and all(same(st, x, y) for x, y in zip(a.a[4], b.a[4]))
    if a.op == "at" and b.op == "at" and a.a[0] is b.a[0]:
        return st.facts.settle(eqi(a.a[1], b.a[1])) is True
    if a.op == "fld" and b.op == "fld" and a.a[1] == b.a[1]:
        return same(st, a.a[0], b.a[0])
    if a.op == "poff" and b.op == "poff" and a.a[0] is b.a[0]:
        return same(st, a.a[1], b.a[1])
    # references to equal places
    if a.op == "ref" and b.op == "ref" and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]):
        return all(
            x is y or (x.op == "i" and y.op == "i" and st.facts.settle(eqi(x.a[0], y.a[0])) is True)
            for x, y in zip(a.a[1], b.a[1])
        )
    if a.op == "fat" and b.op == "fat" and a.a[0] is b.a[0] and a.a[1] == b.a[1]:
        return same(st, a.a[2], b.a[2]) and same(st, a.a[3], b.a[3])
    if a.op == "upd" or b.op == "upd":
        ks = updkeys(a, b)
        if ks is not None:
            try:
                return all(same(st, selkey(a, k, st.facts), selkey(b, k, st.facts)) for k in ks)
            except (NeedFork, Infeasible):
                return False
    # struct against its eta-expansion
    for x, y in ((a, b), (b, a)):
        if x.op == "struct" and y.op != "struct" and x.a[1]:
            return all(same(st, v, select_f(y, n)) for n, v in zip(x.a[1], x.a[2]))
    return False


def updkeys(a, b):
    """the places at which two updates of the same aggregate may differ (None: they are not updates of the same aggregate)"""
    ks, roots = [], []
    for v in (a, b):
        while v.op == "upd":
            ks.append(v.a[1])
            v = v.a[0]
        roots.append(v)
    return list(dict.fromkeys(ks)) if roots[0] is roots[1] else None


def selkey(v, k, facts):
    if k.op == "f":
        return select_f(v, k.a[0])
    if k.op == "i":
        return select_i(v, k.a[0], facts)
    raise Infeasible()


def holds(st, c):
    return st.facts.settle(c) is True


def fails(st, c):
    return st.facts.settle(c) is False


def facts_str(st, n=6):
    return "; ".join(show(c) for c in st.facts.items[-n:])


def _fn_const(self, ty, name):
    c = [f for f in self.index.get((ty, "", name), [])]
    if len(c) != 1:
        raise Missing(f"{ty}::{name}")
    return c[0]["inst"]


Crate.fn_const = _fn_const


# ---------------------------------------------------------------- states
def S(*facts):
    f = Facts()
    for c in facts:
        f = f.add(c)
    return St({}, f)


def conj(st, other):
    """st with the facts of another state over the same symbols; None when contradictory"""
    f = st.facts
    for c in other.items if isinstance(other, Facts) else other.facts.items:
        f = f.add(c)
        if f is None:
            return None
    s = st.copy()
    s.facts = f
    return s


def assume(st, *cs):
    for c in cs:
        if st is None:
            return None
        st = st.assume(c)
    return st


def linsolve(t, j, target):
    """j with t(j) == target, for t linear in j with coefficient one"""
    p = poly(t)
    if p.get((j,)) != 1:
        return None
    rest = frompoly({m: c for m, c in p.items() if m != (j,)})
    if mentions(rest, {j}):
        return None
    return sub(target, rest)


def instantiate(st, m, base=None):
    """instantiates the universally quantified facts of a path at the array position m; returns the possible states"""
    res = [st]
    for q in st.facts.items:
        if q.op != "forall":
            continue
        n, j, alts = q.a[0], q.a[1].a[0], q.a[2:]
        sol = None
        cands = []
        for a in alts:
            walk(a, lambda x: cands.append(x) if x.op == "at" and mentions(x.a[1], {j}) else None)
        for x in cands:
            if base is not None and x.a[0] is not base:
                continue
            sol = linsolve(x.a[1], j, m)
            if sol is not None:
                break
        if sol is None:
            continue
        if st.facts.settle(AND(ge0(sol), lt(sol, n))) is not True:
            continue
        nxt = []
        for s in res:
            for a in alts:
                x = assume(s, *[subst(c, {j: sol}, {}) for c in a.a])
                if x is not None:
                    nxt.append(x)
        res = nxt
    return res


def rets(sp, outs, what="never panics"):
    """the returning outcomes; any other outcome is a violation of `what`"""
    r = []
    for s, k, v in outs:
        if k == "ret":
            r.append((s, v))
        else:
            why = f"{v[0]} at {v[1]} in {v[2]} when {facts_str(s)}" if isinstance(v, tuple) else str(v)
            if findmodel(s.facts.items) is not None:
                sp.check(False, what, why, sp=v[1] if isinstance(v, tuple) else None)
            else:
                sp.undecided(what, why)
    if r:
        sp.check(True, what + " (has a returning path)")
    return r
