"""Archetypes: rows, columns and memory."""

import itertools
from arch import *

Z = 0
SHAPES = ((None,), (Z,), (None, None), (Z, None), (None, Z), (None, None, None), (None, Z, None))
if DEEP:
    SHAPES += ((Z, Z), (None, None, Z), (Z, None, None), (Z, Z, None), (None, None, None, None), (None, None, Z, None, None))
SMALL = ((None,), (None, None), (Z, None))
BIG = ((None,) * 14,)


def world(sp, cr, shape, oom=False):
    ts = [Ty(f"{k:02}", z) for k, z in enumerate(shape)]
    w = AWorld(sp, cr, ts)
    w.oom = oom
    st = S(*ordered([t.id for t in ts]))
    return w, ts, st


def configs(sp, c, extra=()):
    """both build configurations; the larger shapes once"""
    for shape in SHAPES + tuple(extra):
        yield c, shape
    for shape in SHAPES if DEEP else SMALL:
        yield sp.dbg, shape


def aval(st, r):
    return st.rd(mk("obj", r))


def ecount(st, r):
    return select_f(aval(st, r), "entity_count")


def rows(sp, w, a, s, r, want, what, cols=None, ents=True):
    """contents per row: want = [(row, old row or list of values, old handle row or handle or None)]"""
    v = aval(s, r)
    for q, src, h in want:
        if src is not None:
            for j, t in enumerate(a.ts):
                for s2, x in split(s, lambda y: content(w, y, v, j, t, q)):
                    if isinstance(src, (list, tuple)):
                        e = src[j]
                        if e is not None:
                            agree(sp, s2, x, e, what, f"component {t.name} in row {show(q)}")
                    else:
                        agree(sp, s2, x, a.old(j, src), what, f"component {t.name} in row {show(q)}")
        if ents and h is not None:
            for s2, x in split(s, lambda y: entcontent(y, v, q)):
                agree(sp, s2, x, h if h.op == "struct" else a.oldent(h), what + " (handle)", f"row {show(q)}")


def unchanged_shape(sp, a, s, r, what, cnt):
    v = aval(s, r)
    agree(sp, s, select_f(v, "entity_count"), cnt, what + ": row count")


def nodrop(sp, s, what):
    d = drops(s)
    sp.check(not d or not feasible(s), what + " destroys nothing", str(d)[:300])


def quiet(sp, s, what):
    """drops nothing and writes nothing: for read-only operations"""
    nodrop(sp, s, what)


def arch(w, st, name="a", ts=None, cap=None, cnt=None):
    a = Arch(w, st, name, ts if ts is not None else w.types, cap, cnt)
    return a, cell(st, name, a.val)


ROW = lambda n: param(n, 0, MAXR - 1)


def fresh_row(st, a, *others, name="q"):
    """an arbitrary row different from the given ones"""
    q = param(name, 0, MAXR - 1)
    s = assume(st, lt(q, a.cnt), *[NOT(eqi(q, o)) for o in others])
    return q, s


# ---------------------------------------------------------------- row movements
def swaps(sp, c):
    sp.rule = "rows"
    for cr, shape in configs(sp, c, BIG):
        w, ts, st0 = world(sp, cr, shape)
        # swap_entities
        f = cr.fn("Archetype", "swap_entities")
        sp.at(f)
        with sp.guard("swap_entities"):
            st = st0.copy()
            a, r = arch(w, st)
            x, y = ROW("first"), ROW("second")
            st = assume(st, lt(x, a.cnt), lt(y, a.cnt), NOT(eqi(x, y)))
            for s, v in returns(sp, w.run("Archetype", "swap_entities", st, [r, x, y])):
                q, s2 = fresh_row(s, a, x, y)
                rows(sp, w, a, s, r, [(x, y, y), (y, x, x)], "swap_entities exchanges the two rows in every column")
                if s2 is not None:
                    rows(sp, w, a, s2, r, [(q, q, q)], "swap_entities leaves the other rows alone")
                unchanged_shape(sp, a, s, r, "swap_entities", a.cnt)
                nodrop(sp, s, "swap_entities")
                storage(sp, w, s, aval(s, r), ts, "swap_entities")
        for name in ("swap_to_last_unchecked", "swap_drop_unchecked", "swap_remove_unchecked"):
            sp.at(cr.fn("Archetype", name))
            with sp.guard(name):
                st = st0.copy()
                a, r = arch(w, st)
                x = ROW("row")
                st = assume(st, lt(x, a.cnt))
                last = sub(a.cnt, I_(1))
                bind = None
                if name.startswith("swap_remove"):
                    bind = w.gbind(ts, st)
                for s, v in returns(sp, w.run("Archetype", name, st, [r, x], bind)):
                    swapped(sp, w, a, s, v, r, x, last, name)


def swapped(sp, w, a, s, v, r, x, last, name):
    flag = v
    if name.startswith("swap_remove"):
        if v.op != "tuple":
            raise Unsupported("result " + show(v))
        g, flag = v.a[1]
        for j, t in enumerate(a.ts):
            agree(sp, s, select_f(g, str(j)), a.old(j, x), "swap_remove returns the components of the removed row", t.name)
    for s2 in (assume(s, eqi(x, last)), assume(s, NOT(eqi(x, last)))):
        if s2 is None:
            continue
        moved = s2.facts.settle(eqi(x, last)) is not True
        agree(sp, s2, flag, B(moved), name + " reports whether another row was moved into place")
        if moved:
            rows(sp, w, a, s2, r, [(x, last, last)], name + " moves the last row into the freed one")
        if name.startswith("swap_to"):
            rows(sp, w, a, s2, r, [(last, x, x)], name + " leaves the row's components last")
        q, s3 = fresh_row(s2, a, x, last)
        if s3 is not None:
            rows(sp, w, a, s3, r, [(q, q, q)], name + " leaves the other rows alone")
        unchanged_shape(sp, a, s2, r, name, a.cnt if name.startswith("swap_to") else last)
        storage(sp, w, s2, aval(s2, r), a.ts, name)
        if name.startswith("swap_drop"):
            dropped_once(sp, w, a, s2, r, x, name)
        else:
            nodrop(sp, s2, name)


def dropped_once(sp, w, a, s, r, x, name, owner=True):
    """exactly the components of the old row x are destroyed, once each, in a state that no longer counts the row"""
    ds = [e for e in s.ev if e.name in ("drop", "dropcol")]
    left = list(range(len(a.ts)))
    for e in ds:
        if e.name != "dropcol":
            sp.undecided(name + " destroys the row's components once each", str(e)[:200])
            continue
        tn, base, i, n = e.a[0].a[0], e.a[1], e.a[2], e.a[3]
        es = St(e.heap, s.facts)
        js = [j for j in left if a.ts[j].name == tn]
        if not js:
            sp.check(not feasible(s), name + " destroys the row's components once each", f"component {tn} is destroyed again")
            continue
        left.remove(js[0])
        t = a.ts[js[0]]
        agree(sp, s, n, I_(1), name + " destroys one component per column", tn)
        if t.size is not I_(0):
            for s2, got in split(es, lambda y: y.read(mk("obj", base), (mk("i", i),))):
                agree(sp, s2, got, a.old(js[0], x), name + " destroys exactly the removed row's components", tn)
            if owner:
                c = owner(es) if callable(owner) else ecount(es, r)
                true(sp, es, le(c, i), name + " gives the row up before a destructor can run", f"row {show(i)} of {show(c)}")
    for j in left:
        sp.check(not feasible(s), name + " destroys the row's components once each", f"component {a.ts[j].name} is never destroyed")


def destructors(sp, c):
    sp.rule = "row-drops"
    for cr, shape in configs(sp, c, BIG):
        w, ts, st0 = world(sp, cr, shape)
        with sp.guard("drop_entity"):
            sp.at(cr.fn("Archetype", "drop_entity"))
            st = st0.copy()
            a, r = arch(w, st)
            x = ROW("row")
            st = assume(st, lt(x, a.cap))
            for s, v in returns(sp, w.run("Archetype", "drop_entity", st, [r, x])):
                dropped_once(sp, w, a, s, r, x, "drop_entity", owner=False)
                unchanged_shape(sp, a, s, r, "drop_entity", a.cnt)
        with sp.guard("drop_entities"):
            sp.at(cr.fn("Archetype", "drop_entities"))
            st = st0.copy()
            a, r = arch(w, st)
            for s, v in returns(sp, w.run("Archetype", "drop_entities", st, [r])):
                all_dropped(sp, w, a, s, r, "drop_entities")
                agree(sp, s, ecount(s, r), I_(0), "drop_entities leaves no rows")
                storage(sp, w, s, aval(s, r), ts, "drop_entities")
        # dropping the archetype itself
        for cap in (None, I_(0)):
            with sp.guard("drop"):
                sp.at(cr.fn("Archetype", "drop", "Drop"))
                st = st0.copy()
                a, r = arch(w, st, cap=cap)
                for s, v in returns(sp, w.run("Archetype", "drop", st, [r], trait="Drop")):
                    all_dropped(sp, w, a, s, r, "dropping an archetype")
                    live = [k for k, x in s.heap.items() if k.op == "blk" and x.a[2] is TRUE]
                    sp.check(not live or not feasible(s), "dropping an archetype frees every block", f"{[show(k.a[0]) for k in live]}")


def all_dropped(sp, w, a, s, r, name):
    """every component of every counted row is destroyed exactly once, after the rows were given up"""
    per = {t.name: [] for t in a.ts}
    for e in s.ev:
        if e.name == "dropcol":
            per.setdefault(e.a[0].a[0], []).append(e)
        elif e.name in ("drop", "loop"):
            sp.undecided(name, str(e)[:200])
            return
    for j, t in enumerate(a.ts):
        es = per[t.name]
        what = name + " destroys each component of each row exactly once"
        if not es:
            d = s.facts.settle(eqi(a.cnt, I_(0)))
            if d is not True:
                if refuted(s, eqi(a.cnt, I_(0))):
                    sp.check(False, what, f"component {t.name} is not destroyed when {facts_str(s)}")
                else:
                    sp.undecided(what, t.name)
            else:
                sp.check(True, what)
            continue
        if len(es) == 1:
            e = es[0]
            h = St(e.heap, s.facts)
            if t.size is not I_(0):
                agree(sp, s, e.a[1], a.bases[j], what, t.name)
                agree(sp, s, e.a[2], I_(0), what, t.name)
            agree(sp, s, e.a[3], a.cnt, what, t.name)
        else:
            spread(sp, s, es, a.cnt, t, a.bases[j], what)
        for e in es:
            h = St(e.heap, s.facts)
            c = ecount(h, r)
            if t.size is not I_(0):
                true(sp, h, le(c, e.a[2]), name + " gives the rows up before a destructor can run", f"{t.name}: {show(c)} rows counted")
            else:
                agree(sp, h, c, I_(0), name + " gives the rows up before a destructor can run", t.name)


def spread(sp, s, es, cnt, t, base, what):
    """several destructor calls for one column: they must cover [0, cnt) without overlap, which is only decided for known counts"""
    sp.undecided(what, f"{t.name}: {len(es)} calls")


# ---------------------------------------------------------------- growth
def growth(sp, c):
    sp.rule = "storage"
    for cr, shape in configs(sp, c, BIG):
        w, ts, st0 = world(sp, cr, shape)
        capq = param("capacity", 0, (1 << 32) - 1)
        for cond, label in ((eqi(capq, I_(0)), "no capacity"), (AND(ge0(sub(capq, I_(1))), le(capq, I_(MAXR))), "a capacity within the limit"), (lt(I_(MAXR), capq), "a capacity beyond the limit")):
            with sp.guard("with_capacity"):
                f = cr.fn("Archetype", "with_capacity")
                sp.at(f)
                st = st0.copy()
                d = w.desc_of(ts, st)
                dr = cell(st, "descriptor", d)
                st = assume(st, cond)
                for s, v in returns(sp, w.run("Archetype", "with_capacity", st, [dr, capq])):
                    fresh_arch(sp, w, s, v, ts, d, "with_capacity with " + label)
                    if label == "a capacity within the limit":
                        agree(sp, s, select_f(v, "capacity"), capq, "with_capacity provides the requested capacity")
        with sp.guard("new"):
            sp.at(cr.fn("Archetype", "new"))
            st = st0.copy()
            d = w.desc_of(ts, st)
            dr = cell(st, "descriptor", d)
            for s, v in returns(sp, w.run("Archetype", "new", st, [dr])):
                fresh_arch(sp, w, s, v, ts, d, "new")
        # an invalid descriptor makes no archetype
        for name in ("push_uninitialized_entity", "push_entity_unchecked"):
            for cap in (None, I_(0)):
                with sp.guard(name):
                    sp.at(cr.fn("Archetype", name))
                    st = st0.copy()
                    a, r = arch(w, st, cap=cap)
                    st = assume(st, lt(a.cnt, I_(MAXR)))
                    args, bind, vals, e = [r], None, None, None
                    if name == "push_entity_unchecked":
                        bind = w.gbind(ts, st)
                        vals = [w.value(t) for t in ts]
                        e = handlev(w, "e")
                        args += [e, tup(vals)]
                    for s, v in returns(sp, w.run("Archetype", name, st, args, bind)):
                        pushed(sp, w, a, s, v, r, vals, e, name)


def handlev(w, name):
    raw = param("raw:" + name, 0, (1 << 32) - 1)
    return w.one("Entity", "from_raw", S(), [raw])


def fresh_arch(sp, w, s, v, ts, d, what):
    agree(sp, s, select_f(v, "entity_count"), I_(0), what + ": a new archetype has no rows")
    agree(sp, s, select_f(v, "descriptor"), d, what + ": a new archetype keeps its descriptor")
    storage(sp, w, s, v, ts, what)
    nodrop(sp, s, what)


def pushed(sp, w, a, s, v, r, vals, e, name):
    agree(sp, s, v, a.cnt, name + " returns the appended row")
    unchanged_shape(sp, a, s, r, name, add(a.cnt, I_(1)))
    storage(sp, w, s, aval(s, r), a.ts, name)
    nodrop(sp, s, name)
    q, s2 = fresh_row(s, a)
    if s2 is not None:
        rows(sp, w, a, s2, r, [(q, q, q)], name + " keeps the existing rows")
    if vals is not None:
        rows(sp, w, a, s, r, [(a.cnt, vals, e)], name + " stores the entity in the appended row")


def failing_memory(sp, c):
    """an allocation that fails ends in a panic and never in the use of a null pointer"""
    sp.rule = "out-of-memory"
    for cr in (c, sp.dbg):
        w, ts, st0 = world(sp, cr, (None, None), oom=True)
        what = "a failed allocation is noticed before its result is used"
        with sp.guard("with_capacity"):
            sp.at(cr.fn("Archetype", "with_capacity"))
            st = st0.copy()
            dr = cell(st, "descriptor", w.desc_of(ts, st))
            capq = param("capacity", 1, MAXR)
            oomcheck(sp, w.run("Archetype", "with_capacity", st, [dr, capq]), what)
        for cap in (None, I_(0)):
            with sp.guard("push"):
                sp.at(cr.fn("Archetype", "push_uninitialized_entity"))
                st = st0.copy()
                a, r = arch(w, st, cap=cap)
                st = assume(st, lt(a.cnt, I_(MAXR)))
                oomcheck(sp, w.run("Archetype", "push_uninitialized_entity", st, [r]), what)


def oomcheck(sp, outs, what):
    for s, k, v in outs:
        oom = any(e.name == "oom" for e in s.ev)
        if k == "panic" and isinstance(v, tuple) and v[0].startswith("memory: "):
            sp.check(False, what, f"{v[0]} at {v[1]} in {v[2]} when {facts_str(s)}", sp=v[1])
        elif oom:
            sp.check(k == "panic" or not feasible(s), what, "returns normally after a failed allocation; " + facts_str(s))


# ---------------------------------------------------------------- reading and writing rows
def access(sp, c):
    sp.rule = "row-access"
    for cr, shape in configs(sp, c, BIG):
        w, ts, st0 = world(sp, cr, shape)
        for j, t in enumerate(ts):
            for name in ("get_component_unchecked", "get_component_unchecked_mut", "read_component_unchecked", "write_single_component_unchecked"):
                with sp.guard(name):
                    sp.at(cr.fn("Archetype", name))
                    st = st0.copy()
                    a, r = arch(w, st)
                    x = ROW("row")
                    st = assume(st, lt(x, a.cnt))
                    val = w.value(t)
                    args = [r, x] + ([val] if name.startswith("write") else [])
                    for s, v in returns(sp, w.run("Archetype", name, st, args, w.cbind(t))):
                        nodrop(sp, s, name)
                        unchanged_shape(sp, a, s, r, name, a.cnt)
                        q, s2 = fresh_row(s, a, x)
                        if s2 is not None:
                            rows(sp, w, a, s2, r, [(q, q, q)], name + " leaves the other rows alone")
                        if name.startswith("get"):
                            want = poff(a.bases[j], mul(x, t.size)) if t.size is not I_(0) else zptr(t)
                            agree(sp, s, v, want, name + " refers to the component of that type in that row", t.name)
                        elif name.startswith("read"):
                            agree(sp, s, v, a.old(j, x), name + " reads the component of that type in that row", t.name)
                        new = [val if name.startswith("write") and k == j else a.old(k, x) for k in range(len(ts))]
                        rows(sp, w, a, s, r, [(x, new, x)], name + " changes nothing else")
        with sp.guard("write_entity_unchecked"):
            name = "write_entity_unchecked"
            sp.at(cr.fn("Archetype", name))
            st = st0.copy()
            a, r = arch(w, st)
            x = ROW("row")
            st = assume(st, lt(x, a.cnt))
            bind = w.gbind(ts, st)
            vals = [w.value(t) for t in ts]
            e = handlev(w, "e")
            for s, v in returns(sp, w.run("Archetype", name, st, [r, x, e, tup(vals)], bind)):
                nodrop(sp, s, name)
                rows(sp, w, a, s, r, [(x, vals, e)], name + " stores the entity in that row")
                q, s2 = fresh_row(s, a, x)
                if s2 is not None:
                    rows(sp, w, a, s2, r, [(q, q, q)], name + " leaves the other rows alone")
                unchanged_shape(sp, a, s, r, name, a.cnt)
        with sp.guard("entities"):
            for name in ("entities", "entities_mut"):
                sp.at(cr.fn("Archetype", name))
                st = st0.copy()
                a, r = arch(w, st)
                for s, v in returns(sp, w.run("Archetype", name, st, [r])):
                    agree(sp, s, v, mk("fat", mk("obj", a.ents), (mk("s", I4),), I_(0), a.cnt), name + " is the handle of each row, in row order")
        with sp.guard("decrement"):
            name = "decrement_len_unchecked"
            sp.at(cr.fn("Archetype", name))
            st = st0.copy()
            a, r = arch(w, st)
            st = assume(st, lt(I_(0), a.cnt))
            for s, v in returns(sp, w.run("Archetype", name, st, [r])):
                unchanged_shape(sp, a, s, r, name, sub(a.cnt, I_(1)))
                nodrop(sp, s, name)
                storage(sp, w, s, aval(s, r), ts, name)
        with sp.guard("len"):
            for name, want in (("len", "cnt"), ("capacity", "cap")):
                sp.at(cr.fn("Archetype", name))
                st = st0.copy()
                a, r = arch(w, st)
                for s, v in returns(sp, w.run("Archetype", name, st, [r])):
                    agree(sp, s, v, getattr(a, want), name + " is reported as it is")
            sp.at(cr.fn("Archetype", "is_full"))
            st = st0.copy()
            a, r = arch(w, st)
            for s, v in returns(sp, w.run("Archetype", "is_full", st, [r])):
                agree(sp, s, v, eqi(a.cnt, a.cap), "is_full compares rows and capacity")


def subsets(ts):
    n = len(ts)
    for k in range(1, n + 1):
        for x in itertools.combinations(range(n), k):
            yield list(x)


def slices(sp, c):
    sp.rule = "columns"
    for cr, shape in configs(sp, c):
        w, ts, st0 = world(sp, cr, shape)
        for sel in subsets(ts):
            names = ["get_fuzzy_slices_unchecked", "get_fuzzy_slices_unchecked_mut", "get_entity_fuzzy_slices_unchecked", "get_entity_fuzzy_slices_unchecked_mut"]
            if len(sel) == len(ts):
                names += ["get_slices_unchecked_exact", "get_slices_unchecked_exact_mut"]
            group_slices(sp, w, cr, ts, st0, sel, names)
            for name in ("get_fuzzy_components_unchecked", "get_fuzzy_components_unchecked_mut"):
                with sp.guard(name):
                    sp.at(cr.fn("Archetype", name))
                    st = st0.copy()
                    a, r = arch(w, st)
                    x = ROW("row")
                    st = assume(st, lt(x, a.cnt))
                    bind = w.gbind([ts[k] for k in sel], st)
                    for s, v in returns(sp, w.run("Archetype", name, st, [r, x], bind)):
                        for k, j in enumerate(sel):
                            t = ts[j]
                            want = poff(a.bases[j], mul(x, t.size)) if t.size is not I_(0) else zptr(t)
                            agree(sp, s, select_f(v, str(k)), want, name + " refers to each requested component of that row", t.name)
                        untouched(sp, w, a, s, r, name)
    # the widest archetype
    for cr in (c,):
        w, ts, st0 = world(sp, cr, BIG[0])
        for sel in ([0], [13], [6], [0, 13], [3, 4, 11], list(range(14)), list(range(1, 14)), list(range(13))):
            group_slices(sp, w, cr, ts, st0, sel, ["get_entity_fuzzy_slices_unchecked", "get_fuzzy_slices_unchecked_mut"])


def untouched(sp, w, a, s, r, name):
    nodrop(sp, s, name)
    agree(sp, s, aval(s, r), a.val, name + " leaves the archetype as it is")
    what = name + " leaves the rows as they are"
    ch = [(k, v) for k, v in s.heap.items() if k.op == "obj" and k.a[0].op in RAW and v is not mk("init", k)]
    if not ch:
        sp.check(True, what)
    for k, v in ch:
        agree(sp, s, v, mk("init", k), what, show(k))


def group_slices(sp, w, cr, ts, st0, sel, names):
    for name in names:
        for cap in (None, I_(0)):
            with sp.guard(name):
                sp.at(cr.fn("Archetype", name))
                st = st0.copy()
                a, r = arch(w, st, cap=cap)
                bind = w.gbind([ts[k] for k in sel], st)
                for s, v in returns(sp, w.run("Archetype", name, st, [r], bind)):
                    g = v
                    if "entity" in name:
                        he, g = v.a[1]
                        check_slice(sp, s, he, a.ents, I4, a.cnt, name + ": the handle slice has one handle per row, in row order", zero=cap is I_(0))
                    for k, j in enumerate(sel):
                        t = ts[j]
                        check_slice(sp, s, select_f(g, str(k)), a.bases[j], t.size, a.cnt, name + ": each slice has that type's component of each row, in row order", zero=cap is I_(0), t=t)
                    untouched(sp, w, a, s, r, name)


def ptrof(v):
    """the address a slice starts at, when it lies outside of the blocks"""
    return v.a[0].a[0] if v.a[0].op == "obj" and not v.a[1] else v


def check_slice(sp, s, v, base, size, n, what, zero=False, t=None):
    if v.op != "fat":
        sp.undecided(what, show(v))
        return
    if zero:
        agree(sp, s, v.a[3], I_(0), what)
        return
    if t is not None and size is I_(0):
        agree(sp, s, v.a[3], n, what, t.name)
        agree(sp, s, ptrof(v), zptr(t), what, show(v))
        return
    agree(sp, s, v, mk("fat", mk("obj", base), (mk("s", size),), I_(0), n), what)


# ---------------------------------------------------------------- copying between archetypes
def copies(sp, c):
    sp.rule = "row-copy"
    name = "copy_common_components_between_archetypes_unchecked"
    cases_ = ((3, (0, 1, 2), (0, 1, 2)), (3, (0, 1), (0, 1, 2)), (3, (0, 2), (0, 1, 2)), (3, (1, 2), (0, 1, 2)), (3, (0, 1, 2), (0, 2)), (3, (0, 1, 2), (1, 2)), (3, (0, 1, 2), (0, 1)), (2, (0,), (0, 1)), (2, (1,), (0, 1)), (2, (0, 1), (1,)), (2, (0,), (1,)), (4, (0, 2), (1, 3)), (4, (0, 1, 2), (1, 2, 3)))
    wide = tuple(range(14))
    cases_ += ((14, wide, wide[:13]), (14, wide, wide[1:]), (14, wide[:13], wide), (14, wide[1:], wide), (14, wide[:6] + wide[7:], wide))
    for cr in (c, sp.dbg):
        for n, src, dst in cases_:
            if cr is sp.dbg and n > 2:
                continue
            for zs in [None] + list(range(n)):
                if n > 4 and zs is not None:
                    continue
                with sp.guard(name):
                    w, ts, st0 = world(sp, cr, tuple(Z if k == zs else None for k in range(n)))
                    sp.at(cr.fn("Archetype", name))
                    st = st0.copy()
                    a, ra = arch(w, st, "src", [ts[k] for k in src])
                    b, rb = arch(w, st, "dst", [ts[k] for k in dst])
                    x, y = ROW("from"), ROW("to")
                    st = assume(st, lt(x, a.cnt), lt(y, b.cap))
                    for s, v in returns(sp, w.run("Archetype", name, st, [ra, x, rb, y])):
                        new = [a.old(a.ts.index(t), x) if t in a.ts else b.old(k, y) for k, t in enumerate(b.ts)]
                        rows(sp, w, b, s, rb, [(y, new, y)], "the shared components, and only they, are copied")
                        q, s2 = fresh_row(s, b, y)
                        if s2 is not None:
                            rows(sp, w, b, s2, rb, [(q, q, q)], "other rows of the destination stay as they are")
                        q, s2 = fresh_row(s, a)
                        if s2 is not None:
                            rows(sp, w, a, s2, ra, [(q, q, q)], "the source stays as it is")
                        nodrop(sp, s, "copying")
                        for z, rz in ((a, ra), (b, rb)):
                            agree(sp, s, aval(s, rz), z.val, "copying changes neither counts nor columns")
