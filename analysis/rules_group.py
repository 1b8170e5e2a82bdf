"""Component constants and the component group implementations of every arity."""

from arch import *
from engine import poff
from rules_desc import tys, chain, group_is, perms, CAPN


def mem(name):
    """an address in raw memory"""
    return mk("mem", name)


def insts(cr, pred):
    return [i for i in cr.p.insts.values() if pred(i)]


def dropped(st, evs=None):
    """(pointer, type) of each destroyed value, in order; slices of known length are spread"""
    r = []
    for e in evs if evs is not None else st.ev:
        if e.name == "drop":
            p = e.a[2]
            if p.op == "fat":
                if p.a[3].op != "int":
                    raise Unsupported("drop of a slice of unknown length")
                r += [(elem(p, I_(i)), e.a[0]) for i in range(p.a[3].a[0])]
            else:
                r.append((p, e.a[0]))
        elif e.name == "loop":
            raise Unsupported("drop in a summarised loop")
    return r


# ---------------------------------------------------------------- component constants
def component_const(sp, c):
    sp.rule = "component-const"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        ci = insts(cr, lambda i: i["path"].endswith("component::Component::DESCRIPTOR"))
        if len(ci) != 1:
            raise Missing("Component::DESCRIPTOR")
        ci = ci[0]
        sp.fns.add(ci["path"])
        raw = param("raw_id", 0, 65534)
        cid = w.one("ComponentTypeId", "from_u16", S(), [raw])
        for size_ok in (True, False):
            for align_ok in (True, False):
                size = param("size", 0, 65535) if size_ok else param("big_size", 65536, 1 << 40)
                align = param("align", 1, 32768) if align_ok else param("big_align", 65536, 1 << 29)
                e = w.engine({"Self": {"size": size, "align": align, "Component::ID": cid}})
                outs = e.exec_body(ci, ci["body"], [], S(), 1, keep=True)
                if not (size_ok and align_ok):
                    what = "a component too large for its descriptor does not compile"
                    for s, k, v in outs:
                        if k == "panic":
                            sp.check(True, what)
                        else:
                            never(sp, s, what, "the descriptor of a huge component can be computed")
                    continue
                for s, v in rets(sp, outs, "the descriptor of a component can be computed"):
                    q = cell(s, "cd", v)
                    got = [w.one("ComponentDescriptor", n, s, [q]) for n in ("component_type_id", "size", "align")]
                    for x, y in zip(got, (cid, size, align)):
                        agree(sp, s, x, y, "a component's descriptor has its id, size and alignment")
                    handler(sp, w, cr, s, select_f(select_f(v, "fns"), "drop_handler"), size, align)


class Fr:
    def __init__(self, inst):
        self.inst, self.body, self.fid, self.depth, self.active = inst, inst["body"], 0, 1, ()


def handler(sp, w, cr, st, h, size, align):
    """the destructor stored in a descriptor drops each of n consecutive components once"""
    base = mem("components")
    fr = Fr(next(iter(insts(cr, lambda i: i["path"].endswith("component::Component::DESCRIPTOR")))))
    what = "the drop handler destroys each component of the range exactly once"
    for n in (0, 1, 2, 3, 5):
        e = w.engine({"Self": {"size": size, "align": align}})
        s0 = st.copy()
        s0.ev = ()
        for s, v in rets(sp, e.call_value(s0, fr, h, [base, I_(n)], {"sp": "?", "args": []}), "the drop handler itself never panics"):
            got = dropped(s)
            want = [poff(base, mul(I_(i), size)) for i in range(n)]
            typed = all("Self" in x[1].a[0] for x in got)
            if typed and sorted(x[0].id for x in got) == sorted(x.id for x in want):
                sp.check(True, what)
            elif not typed or len(got) != n or len({x[0].id for x in got}) < n and not holds(s, eqi(size, I_(0))) or any(isblock(x[0]) and all(distinct(s, x[0], y) for y in want) for x in got):
                never(sp, s, what, f"{n} components: destroys {[show(x[0]) for x in got]}")
            else:
                sp.undecided(what, f"{n} components: destroys {[show(x[0]) for x in got]}")
    # any number
    n = param("n", 0, 1 << 40)
    e = w.engine({"Self": {"size": size, "align": align}})
    e.unroll = 0
    s0 = st.copy()
    s0.ev = ()
    try:
        outs = e.call_value(s0, fr, h, [base, n], {"sp": "?", "args": []})
        for s, k, v in outs:
            if k != "ret":
                never(sp, s, "the drop handler itself never panics", str(v))
                continue
            part = what + " (any number)"
            ls = [x for x in s.ev if x.name in ("drop", "loop")]
            if not ls:
                true(sp, s, eqi(n, I_(0)), part, "destroys nothing")
                continue
            if len(ls) == 1 and ls[0].name == "drop" and ls[0].a[2].op == "fat":
                agree(sp, s, ls[0].a[2], mk("fat", mk("obj", base), ls[0].a[2].a[1], I_(0), n), part)
                continue
            if len(ls) != 1 or ls[0].name != "loop" or any(len(p[1]) != 1 or p[1][0].name != "drop" for p in ls[0].paths):
                sp.undecided(part, str(ls)[:200])
                continue
            l = ls[0]
            agree(sp, s, l.count, n, part)
            if all(p[1][0].a[2] in (poff(base, mul(l.k, size)), poff(base, mul(sub(sub(n, I_(1)), l.k), size))) for p in l.paths):
                sp.check(True, part)
            else:
                sp.undecided(part, str(ls)[:300])
    except Unsupported as x:
        sp.undecided(what + " (any number)", str(x))


# ---------------------------------------------------------------- tuples
METHODS = (
    "as_sorted_pointers read_from_sorted_pointers pointers_as_ref_tuple pointers_as_mut_ref_tuple slice_unchecked"
    " slice_unchecked_mut empty_slice empty_slice_mut"
).split()


def selfty(n):
    return "T" if n == 1 else "(" + ", ".join(f"T{k+1}" for k in range(n)) + ")"


def parts(v, n):
    if n == 1:
        return [v]
    if v.op != "tuple" or len(v.a[1]) != n:
        raise Unsupported("group value " + show(v))
    return list(v.a[1])


def group_const(w, cr, n, bind, st):
    """outcomes of the DESCRIPTOR constant of the n-ary group"""
    t = selfty(n)
    key = f"<{t} as descriptors::component_group::ComponentGroup>::DESCRIPTOR"
    ci = [cr.p.insts[f["inst"]] for f in cr.p.fns if f["path"].replace("crate::", "", 1) == key and f.get("inst") in cr.p.insts]
    if len(ci) != 1:
        raise Missing(key)
    w.sp.fns.add(ci[0]["path"])
    return w.engine(bind).exec_body(ci[0], ci[0]["body"], [], st, 1, keep=True)


def tbind(w, n, ts, st):
    """bindings for the tuple's type parameters: position k is type ts[k]"""
    r = {}
    for k in range(n):
        t = ts[k]
        cid = w.one("ComponentTypeId", "from_u16", S(), [t.id])
        r["T" if n == 1 else f"T{k+1}"] = {"size": t.size, "align": t.align, "Component::ID": cid, "Component::DESCRIPTOR": w.cdesc(t, st)}
    return r


def some_perms(full):
    last = 0
    for p in perms():
        n = len(p)
        if not full and not DEEP and n > 3 and n == last:
            continue
        last = n
        yield p


def zeros(n, first):
    """which of the types have size zero (types of symbolic size otherwise)"""
    yield ()
    if first:
        yield tuple(range(n))
        if 1 < n < 4:
            for k in range(n):
                yield (k,)
        elif n > 3:
            yield tuple(range(0, n, 2))


def tuples(sp, c):
    sp.rule = "group-impl"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        for perm, zero in [(p, z) for p in some_perms(cr is c) for z in zeros(len(p), cr is c and list(p) == sorted(p))]:
            n = len(perm)
            sorted_ts = [Ty(f"{k:02}", 0 if k in zero else None) for k in range(n)]
            ts = [sorted_ts[p] for p in perm]
            st = chain(sorted_ts)
            bind = tbind(w, n, ts, st)
            desc = None
            for s, v in rets(sp, group_const(w, cr, n, bind, st), "the descriptor of a group can be computed"):
                ds = descs(w, n, v, s, sorted_ts, perm)
                if ds is None:
                    continue
                group_is(w, s, v, ds, perm)
                desc = v
            if desc is None:
                continue
            t = selfty(n)
            bind["DESC"] = desc
            bind[f"crate::<{t} as descriptors::component_group::ComponentGroup>::DESCRIPTOR"] = desc
            bind.setdefault("Self", {})["ComponentGroup::DESCRIPTOR"] = desc
            bind[t if n > 1 else "T"] = dict(bind.get(t if n > 1 else "T", {}), **{"ComponentGroup::DESCRIPTOR": desc})
            impl(sp, w, cr, n, ts, perm, bind, st)


def descs(w, n, v, s, sorted_ts, perm):
    """the component descriptors the group's constant lists must be those of its members (their drop handlers are the generic
    wrappers for the respective type)"""
    sp = w.sp
    r = cell(s, "g", v)
    a = w.one("ComponentGroupDescriptor", "archetype", s, [r])
    q = a if a.op == "ref" else mk("ref", mk("obj", a), ())
    l = w.one("ArchetypeDescriptor", "components", s, [q])
    if l.op != "fat" or l.a[3].op != "int":
        raise Unsupported("component list " + show(l))
    got = [s.read(l.a[0], l.a[1] + (mk("i", I_(l.a[2].a[0] + k)),)) for k in range(l.a[3].a[0])]
    if len(got) != n:
        never(sp, s, "a group's descriptor lists all its components", f"{len(got)} of {n}")
        return None
    sp.check(True, "a group's descriptor lists all its components")
    want = []
    inv = {p: k for k, p in enumerate(perm)}
    for i, (d, t) in enumerate(zip(got, sorted_ts)):
        h = select_f(select_f(d, "fns"), "drop_handler")
        nm = "T" if n == 1 else f"T{inv[i]+1}"
        if h.op == "fnitem":
            sp.check(f"<{nm}>" in h.a[0] or f"<{nm}," in h.a[0], "each component of a group keeps its own destructor", f"{show(h)[:120]} for {nm}")
        elif h.op == "dropfn":
            sp.check(h is t.drop, "each component of a group keeps its own destructor", show(h))
        cid = w.one("ComponentTypeId", "from_u16", S(), [t.id])
        want.append(w.one("ComponentDescriptor", "new", S(), [cid, t.size, t.align, h]))
    return want


def known(x, ptrs):
    """x is a pointer to, or the value at, one of the components"""
    while x.op in ("at", "init", "obj", "poff"):
        x = x.a[0]
    return x in ptrs or ptrkind(x)


def impl(sp, w, cr, n, ts, perm, bind, st0):
    t = selfty(n)
    ptrs = [mem(f"sorted{k}") for k in range(n)]
    # as_sorted_pointers
    f = cr.fn(t, "as_sorted_pointers", "ComponentGroup")
    sp.at(f)
    st = st0.copy()
    vals = tuple(mk("param", 0, f"value{k}") for k in range(n))
    me = cell(st, "self", vals[0] if n == 1 else mk("tuple", tuple(str(k) for k in range(n)), vals))
    junk = tuple(mk("param", 0, f"junk{k}") for k in range(CAPN))
    arr = cell(st, "ptrs", mk("arr", *junk))
    for s, v in rets(sp, sp.run(cr, f, st, [me, arr], eng=w.engine(bind)), "as_sorted_pointers never panics"):
        out = s.rd(mk("obj", arr))
        for k in range(n):
            got = select_i(out, I_(perm[k]), None)
            want = me if n == 1 else mk("ref", mk("obj", me), (mk("f", str(k)),))
            what = "as_sorted_pointers stores the address of each component at its sorted position"
            why = f"{n} components, position {k} -> {perm[k]}: {show(got)}"
            if got is want:
                sp.check(True, what)
            elif got in junk or got.op == "ref" and got.a[0] is mk("obj", me) and got is not want or ptrkind(got):
                never(sp, s, what, why)
            else:
                sp.undecided(what, why)
        agree(sp, s, s.rd(mk("obj", me)), st.rd(mk("obj", me)), "as_sorted_pointers leaves the components alone")
    # reading, borrowing and slicing
    ln = param("len", 0, (1 << 24) - 1)
    tail = [mk("addr", I_(0))] * (CAPN - n)
    for m in METHODS[1:]:
        f = cr.fn(t, m, "ComponentGroup")
        sp.at(f)
        st = st0.copy()
        arr = cell(st, "ptrs", mk("arr", *(ptrs + tail)))
        args = [] if m.startswith("empty") else [arr, ln] if m.startswith("slice") else [arr]
        for s, v in rets(sp, sp.run(cr, f, st, args, eng=w.engine(bind)), m + " never panics"):
            for k, x in enumerate(parts(v, n)):
                p = ptrs[perm[k]]
                if m.startswith("read"):
                    good = x is s.read(mk("obj", p), (mk("i", I_(0)),))
                elif m.startswith("pointers"):
                    good = x is p
                elif m.startswith("empty"):
                    good = x.op == "fat" and x.a[3] is I_(0)
                else:
                    good = same(s, x, mk("fat", mk("obj", p), (mk("s", ts[k].size),), I_(0), ln))
                what, why = m + " uses each component's own pointer", f"{n} components, position {k} (sorted {perm[k]}): {show(x)}"
                if good:
                    sp.check(True, what)
                elif m.startswith("slice"):
                    agree(sp, s, x, mk("fat", mk("obj", p), (mk("s", ts[k].size),), I_(0), ln), what, why)
                elif m.startswith("empty") and x.op == "fat":
                    agree(sp, s, x.a[3], I_(0), what, why)
                elif known(x, ptrs):
                    never(sp, s, what, why)
                else:
                    sp.undecided(what, why)
            bad = [e for e in s.ev if e.name in ("drop", "write", "copy", "swapmem", "dealloc", "forget", "unknown")]
            sp.check(not bad, m + " has no side effects", str(bad)[:200]) if not bad else never(sp, s, m + " has no side effects", str(bad)[:200])
