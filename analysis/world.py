"""Finite-shape abstract states: lists of known length over symbolic contents. Component ids, sizes, alignments, rows,
counts, capacities and handles stay symbolic; only the number of components and archetypes involved is fixed, so loops
over component lists are followed element by element (their length is bounded by MAX_COMPONENTS_PER_ENTITY)."""

from itertools import combinations
from spec import *
from models import cases, deref_read, elem, cmpvals, SI, vparts, BUF as VBUF, vecv, EMPTY, targ, NULL

WM = {}


def wmodel(*names):
    def d(f):
        for n in names:
            WM[n] = f
        return f

    return d


# ---------------------------------------------------------------- concrete searches and comparisons
def ordsplit(s, v):
    """an Ordering value as [(state, -1 | 0 | 1)]"""
    if v.op == "cmp":
        a, b = v.a
        r = []
        for c, o in ((lt(a, b), -1), (eqi(a, b), 0), (lt(b, a), 1)):
            t = s.assume(c)
            if t is not None:
                r.append((t, o))
        return r
    if v.op == "variant":
        return [(s, {"Less": -1, "Equal": 0, "Greater": 1}[v.a[2]])]
    raise Unsupported("ordering " + show(v))


def ordering(o):
    n = ("Less", "Equal", "Greater")[o + 1]
    return mk("variant", "core::cmp::Ordering", o + 1, n, (), ())


def clen(v, what):
    if v.a[3].op != "int" or v.a[2].op != "int":
        raise Unsupported(what + " over a list of unknown length")
    return v.a[3].a[0]


def csearch(eng, st, fr, t, fat, call):
    """binary search by its specification, over a list of known length"""
    if fat.a[3].op != "int" and getattr(eng.world, "anysearch", None):
        return eng.world.anysearch(eng, st, fat)
    n = clen(fat, "search")
    res = []
    work = [(st, 0, [])]
    while work:
        s, i, outs = work.pop()
        if i == n:
            # (that the list is ordered that way is decided where keys are inserted)
            if 0 in outs:
                res.append((s, "ret", ok(I_(outs.index(0)))))
            else:
                res.append((s, "ret", err(I_(sum(1 for o in outs if o < 0)))))
            continue
        for s2, k, v in call(s, I_(i)):
            if k != "ret":
                res.append((s2, k, v))
                continue
            for s3, o in ordsplit(s2, v):
                work.append((s3, i + 1, outs + [o]))
    return res


@wmodel("core::slice::<impl [T]>::binary_search_by_key")
def bs_key(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    key = deref_read(eng, st, args[1])

    def call(s, q):
        return [
            (s2, k, cmpvals(v, key) if k == "ret" else v) for s2, k, v in eng.call_value(s, fr, args[2], [elem(fat, q)], t)
        ]

    return csearch(eng, st, fr, t, fat, call)


@wmodel("core::slice::<impl [T]>::binary_search_by")
def bs_by(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    return csearch(eng, st, fr, t, fat, lambda s, q: eng.call_value(s, fr, args[1], [elem(fat, q)], t))


@wmodel("core::slice::<impl [T]>::binary_search")
def bs(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    key = deref_read(eng, st, args[1])

    def call(s, q):
        e = elem(fat, q)
        return [(s, "ret", cmpvals(s.read(*eng.deref(s, e)[:2]), key))]

    return csearch(eng, st, fr, t, fat, call)


@wmodel("core::slice::<impl [T]>::partition_point")
def bs_pp(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    n = clen(fat, "partition")
    res, work = [], [(st, 0, [])]
    while work:
        s, i, outs = work.pop()
        if i == n:
            res.append((s, "ret", I_(sum(outs))))
            continue
        for s2, k, v in models.bool_outs(eng, eng.call_value(s, fr, args[1], [elem(fat, I_(i))], t)):
            if k != "ret":
                res.append((s2, k, v))
            else:
                work.append((s2, i + 1, outs + [v is TRUE]))
    return res


def clist(eng, st, fr, it, t):
    """the elements an iterator of known length yields"""
    if it.op == "struct" and it.a[0] == SI:
        v, i, n = it.a[2]
        if i.op != "int" or n.op != "int":
            raise Unsupported("sequence of unknown length " + show(it)[:1500])
        return [elem(v, I_(j)) for j in range(i.a[0], n.a[0])]
    if it.op == "struct" and it.a[0].endswith("iter::Map"):
        l = clist(eng, st, fr, it.a[2][0], t)
        fn = it.a[2][1]
        r = []
        for x in l:
            if fn.op in ("copied", "cloned"):
                r.append(st.read(*eng.deref(st, x)[:2]))
                continue
            outs = [o for o in eng.call_value(st, fr, fn, [x], t) if o[1] == "ret"]
            if len(outs) != 1:
                raise Unsupported("mapped iterator")
            r.append(outs[0][2])
        return r
    kind = it.a[0].split("::")[-1] if it.op == "struct" and "iter" in it.a[1] else None
    if kind in ("Rev", "Skip", "Take", "Enumerate"):
        l = clist(eng, st, fr, select_f(it, "iter"), t)
        if kind == "Rev":
            return l[::-1]
        if kind == "Enumerate":
            return [mk("tuple", ("0", "1"), (add(select_f(it, "count"), I_(j)), x)) for j, x in enumerate(l)]
        n = select_f(it, "n")
        if n.op == "int":
            return l[n.a[0]:] if kind == "Skip" else l[: n.a[0]]
    raise Unsupported("iterator " + show(it))


def cderef(st, v):
    if v.op == "ref":
        return st.read(v.a[0], v.a[1])
    return v


@wmodel("core::iter::Iterator::cmp")
def it_cmp(eng, st, fr, f, args, t):
    a, b = clist(eng, st, fr, args[0], t), clist(eng, st, fr, args[1], t)
    res, work = [], [(st, 0)]
    while work:
        s, i = work.pop()
        if i == min(len(a), len(b)):
            res.append((s, "ret", ordering((len(a) > len(b)) - (len(a) < len(b)))))
            continue
        for s2, o in ordsplit(s, cmpvals(cderef(s, a[i]), cderef(s, b[i]))):
            if o == 0:
                work.append((s2, i + 1))
            else:
                res.append((s2, "ret", ordering(o)))
    return res


@wmodel("core::iter::Iterator::eq")
def it_eq(eng, st, fr, f, args, t):
    return [(s, "ret", B(v.a[2] == "Equal")) for s, k, v in it_cmp(eng, st, fr, f, args, t)]


@wmodel("core::iter::Iterator::ne")
def it_ne(eng, st, fr, f, args, t):
    return [(s, "ret", B(v.a[2] != "Equal")) for s, k, v in it_cmp(eng, st, fr, f, args, t)]


# ---------------------------------------------------------------- worlds
class Ty:
    """a component type"""

    def __init__(self, name, size=None):
        self.name = name
        self.id = param("id:" + name, 0, 65534)
        self.size = param("size:" + name, 1, 65535) if size is None else I_(size)
        self.align = param("align:" + name, 1, 65535)
        self.drop = mk("dropfn", name)

    def __repr__(self):
        return self.name


def ordered(ids):
    """facts that the ids strictly increase"""
    return [lt(a, b) for a, b in combinations(ids, 2)]


class World:
    def __init__(self, sp, cr, models_extra=None, unroll=256):
        self.sp, self.cr = sp, cr
        self.extra = dict(WM)
        if models_extra:
            self.extra.update(models_extra)
        self.unroll = unroll
        self.contracts = {}
        self.limit = 400000
        self.frames = 0
        self.hash_contract()

    def engine(self, bind=None):
        e = self.sp.engine(self.cr, self.contracts, self.extra)
        e.unroll = self.unroll
        e.limit = self.limit
        e.bind = bind or {}
        e.world = self
        # promoted constants stay in memory after the run that made them: frames of different runs are told apart
        e.fid = self.frames
        self.frames += 100000
        return e

    def run(self, ty, name, st, args, bind=None, trait=""):
        f = self.cr.fn(ty, name, trait)
        return self.sp.run(self.cr, f, st, args, eng=self.engine(bind))

    def one(self, ty, name, st, args, bind=None, trait=""):
        """the value of a call that has one outcome"""
        outs = [o for o in self.run(ty, name, st, args, bind, trait)]
        if len(outs) != 1 or outs[0][1] != "ret":
            raise Unsupported(f"{ty}::{name}: {len(outs)} outcomes: {[o[1:] if o[1]!='ret' else '' for o in outs][:3]}")
        s = outs[0][0]
        for k, v in s.heap.items():
            if k.op == "obj" or k.op == "L":
                st.heap.setdefault(k, v)
        return outs[0][2]

    def hash_contract(self):
        """the 32 bit hash is some function of the hashed bytes (its value is decided by its own rule)"""
        if not self.cr.has("", "fnv1a_hash_32"):
            return

        def h(eng, st, fr, f, args, t):
            v = args[0]
            if v.op == "fat" and v.a[2].op == "int" and v.a[3].op == "int":
                n, s0 = v.a[3].a[0], v.a[2].a[0]
            else:
                raise Unsupported("hash of " + show(v))
            bs = [st.read(v.a[0], v.a[1] + (mk("i", I_(s0 + i)),)) for i in range(n)]
            l = args[1]
            if l.op != "variant":
                raise Unsupported("hash limit " + show(l))
            if l.a[2] == "Some":
                k = l.a[4][0]
                if k.op != "int":
                    raise Unsupported("hash limit " + show(l))
                if 0 < k.a[0] <= n:
                    bs = bs[: k.a[0]]
            r = mk("fnv", *bs)
            RNG[r] = (0, (1 << 32) - 1)
            return r

        self.contracts[self.cr.fn("", "fnv1a_hash_32")["path"]] = h

    # ---- descriptors
    def cdesc(self, t, st):
        """ComponentDescriptor of a component type"""
        i = self.one("ComponentTypeId", "from_u16", S(), [t.id])
        return self.one("ComponentDescriptor", "new", S(), [i, t.size, t.align, t.drop])

    def invalid(self, ty):
        return self.engine().evalconst(S(), self.cr.fn_const(ty, "INVALID"))

    def adesc(self, ds, st):
        """ArchetypeDescriptor over sorted component descriptors"""
        inv = self.invalid("ComponentDescriptor")
        arr = mk("arr", *(list(ds) + [inv] * (14 - len(ds))))
        r = cell(st, "descs", arr)
        fat = mk("fat", mk("obj", r), (), I_(0), I_(len(ds)))
        outs = self.run("ArchetypeDescriptor", "compute_archetype_id", st, [fat])
        # the path on which the hash is not the reserved value
        c = [o for o in outs if o[1] == "ret" and not ground(o[2])] or outs
        if len(c) != 1 or c[0][1] != "ret":
            raise Unsupported("archetype id has several forms")
        st.facts = c[0][0].facts
        return self.one("ArchetypeDescriptor", "new", st, [c[0][2], I_(len(ds)), arr])


def ground(v):
    r = []
    walk(v, lambda x: r.append(x) if x.op in ("param", "fnv", "sym") else None)
    return not r
