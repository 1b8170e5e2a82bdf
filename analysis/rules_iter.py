"""Iteration over archetypes: which ones are visited, and what is handed out for each."""

from rules_reg import *
from rules_reg import K

FILTER = param("filter")


def ordered_ids(R, st, names):
    """the archetypes of one level are listed in the order of their ids"""
    for x, y in zip(names, names[1:]):
        a, b = (select_f(R.archs[n].desc, "archetype_id") for n in (x, y))
        a, b = flat(a), flat(b)
        s = st.assume(lt(a, b))
        if s is None:
            raise Unsupported("level order")
        st = s
    return st


def flat(v):
    while v.op == "struct" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


@amodel("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def f_call(eng, st, fr, f, args, t):
    """the user's filter: accepts or refuses each archetype's descriptor"""
    R = getattr(eng.world, "reg", None)
    v = args[0]
    while v.op == "ref":
        v = st.read(v.a[0], v.a[1])
    if R is None or v is not FILTER:
        return None
    d = args[1].a[1][0]
    d = cderef(st, d)
    for n, a in R.archs.items():
        if d is a.desc or same(st, d, a.desc):
            return eqi(param("accepts:" + n, 0, 1), I_(1))
    if d.op == "struct" and all(differs(st, d, a.desc) for a in R.archs.values()):
        return eqi(param("accepts:another descriptor", 0, 1), I_(1))
    raise Unsupported("filter applied to " + show(d)[:200])


def differs(st, d, e):
    """the descriptors are those of different component sets"""
    n, m = select_f(d, "len"), select_f(e, "len")
    if st.facts.settle(eqi(n, m)) is False:
        return True
    if n.op != "int" or m is not n:
        return False
    for k in range(n.a[0]):
        x, y = (flat(select_f(select_i(select_f(v, "components"), I_(k), None), "component_type_id")) for v in (d, e))
        if st.facts.settle(eqi(x, y)) is False:
            return True
    return False


class Iteration:
    def __init__(self, sp, cr, shape, archs, sets=None, lists=None, prep=None):
        self.sp, self.cr = sp, cr
        w, self.all, st = rworld(sp, cr, shape)
        self.w = w
        l = [(n, [self.all[k] for k in ks], o) for n, ks, o in archs]
        self.R = R = Reg(w, st, l, [], "any")
        w.reg = R
        for lv in R.levels:
            st = ordered_ids(R, st, lv)
        if lists:
            lists(self, st)
        self.st = st

    def start(self, name, want, st=None, filt=False):
        """[(state, iterator)]"""
        st = (st or self.st).copy()
        w = self.w
        ts = None if want is None else [self.all[k] for k in want]
        self.bind = w.gbind(ts, st)
        return returns(self.sp, w.run("Registry", name, st, [self.R.ref] + ([FILTER] if filt else []), self.bind))

    def next(self, st, it):
        """[(state, iterator cell, item or None)]"""
        s = st.copy()
        ty = basename(it.a[0]) if it.op == "struct" else None
        if ty is None or not self.cr.has(ty, "next", "Iterator"):
            raise Unsupported("iterator " + show(it)[:200])
        c = cell(s, "iterator", it)
        res = []
        for s2, v in returns(self.sp, self.w.run(ty, "next", s, [c], self.bind, "Iterator")):
            if v.op != "variant":
                raise Unsupported("item " + show(v))
            res.append((s2, s2.rd(mk("obj", c)), v.a[4][0] if v.a[2] == "Some" else None))
        return res

    def item(self, st, v, ents, want, what):
        """name of the archetype an item belongs to; checks its slices"""
        sp, R = self.sp, self.R
        parts = [select_f(v, str(k)) for k in range(2)] if ents else [None, v]
        cands = []
        for n, a in R.archs.items():
            if not set(want) <= set(self.idx(n)):
                cands.append((n, None))
        ss = [select_f(parts[1], str(k)) for k in range(len(want))]
        if any(x.op != "fat" for x in ss) or ents and parts[0].op != "fat":
            raise Unsupported("item " + show(v)[:200])
        # the archetype is recognised by any of its memory
        got = {self.owner(x) for x in ss + ([parts[0]] if ents else [])} - {None}
        if not got:
            if not all(self.all[k].size is I_(0) for k in want):
                raise Unsupported("item " + show(v)[:200])
            # zero-sized components only: told apart by the number of rows
            got = {n for n, a in R.archs.items() if ss[0].a[3] is a.cnt}
        if len(got) != 1:
            sp.check(not feasible(st), what + ": slices of one archetype", f"{sorted(got)}: {show(v)[:300]}")
            return None
        n = got.pop()
        a = R.archs[n]
        for k, x in zip(want, ss):
            if k not in self.idx(n):
                sp.check(not feasible(st), what + ": only archetypes having the components", n)
                continue
            j = self.idx(n).index(k)
            slice_is(sp, st, x, a.bases[j], self.all[k], a.cnt, what + ": the slice of the requested component")
        if ents:
            slice_is(sp, st, parts[0], a.ents, None, a.cnt, what + ": the archetype's entities")
        return n

    def idx(self, n):
        return [self.all.index(t) for t in self.R.archs[n].ts]

    def owner(self, x):
        o = x.a[0]
        if o.op != "obj":
            return None
        for n, a in self.R.archs.items():
            if any(b.op == "mem" and o.a[0] is b for b in a.bases + [a.ents]):
                return n
        return None


def slice_is(sp, st, x, base, t, n, what):
    if t is not None and t.size is I_(0):
        ok = x.a[0] is mk("obj", base)
        sp.check(ok or not feasible(st), what, f"{show(x)}")
    else:
        if x.a[0] is not mk("obj", base):
            sp.check(not feasible(st), what, f"{show(x)} instead of {show(base)}")
            return
        agree(sp, st, x.a[2], I_(0), what + " starts at the first row")
    agree(sp, st, x.a[3], n, what + " has all rows")


NAMES = [
    (f"iter_{f}{e}components_matching{m}", bool(f), bool(e))
    for f in ("", "filtered_")
    for e in ("", "entity_")
    for m in ("", "_mut")
]
ARCHS = [("a", (0,)), ("b", (1,)), ("ab", (0, 1)), ("ac", (0, 2)), ("bc", (1, 2)), ("abc", (0, 1, 2)), ("abd", (0, 1, 3)), ("bcd", (1, 2, 3)), ("abcd", (0, 1, 2, 3))]


def matching(sp, c):
    visits(sp, c, False, False)


def matching_mut(sp, c):
    visits(sp, c, False, True)


def filtered(sp, c):
    visits(sp, c, True, False)


def filtered_mut(sp, c):
    visits(sp, c, True, True)


def visits(sp, c, filtered, mut):
    sp.rule = "matching"
    for cr in (c, sp.dbg):
        for name, filt, ents in NAMES:
            if filt != filtered or name.endswith("_mut") != mut:
                continue
            f = cr.fn("Registry", name)
            with sp.guard(name):
                sp.at(f)
                wants = [(0,), (1,), (2,), (3,), (0, 1), (1, 2), (0, 3), (0, 1, 2), (0, 1, 2, 3), None]
                for want in wants if cr is c or DEEP else wants[:1] + wants[4:7] + wants[-1:]:
                    visit(sp, cr, name, filt, ents, (K,) * 4, ARCHS, want)
                visit(sp, cr, name, filt, ents, (K,) * 4, [], (0, 1))
                visit(sp, cr, name, filt, ents, (Z, K, K, K), ARCHS[:3] + ARCHS[5:6], (0, 1))
                visit(sp, cr, name, filt, ents, (K, Z, K, K), ARCHS[:3] + ARCHS[5:6], (1,))
            with sp.guard(name + " with the largest archetypes"):
                sp.at(f)
                big = tuple(range(14))
                for want in ((0,), (3, 13), big):
                    visit(sp, cr, name, filt, ents, (K,) * 15, [("first", (0,)), ("most", big[1:]), ("all", big), ("others", tuple(range(1, 15)))], want)


# ---------------------------------------------------------------- any number of archetypes
POS = "current_index_in_level"
LEVEL = "current_level"


def place_iter(v, fields):
    """an iterator with some fields replaced (looked for in nested structs)"""
    if v.op != "struct":
        return v
    return mk("struct", v.a[0], v.a[1], tuple(fields[n] if n in fields else place_iter(x, fields) for n, x in zip(v.a[1], v.a[2])))


def has_fields(v):
    if v.op != "struct":
        return set()
    r = set(v.a[1])
    for x in v.a[2]:
        r |= has_fields(x)
    return r


def scan(sp, c):
    """one step of the iteration from an arbitrary position in an arbitrarily long list"""
    sp.rule = "scan"
    for cr in (c, sp.dbg):
        for name, filt, ents in NAMES:
            with sp.guard(name):
                sp.at(cr.fn("Registry", name))
                for case in ("next two", "skips one", "next level", "skips a level", "end", "starts"):
                    step(sp, cr, name, filt, ents, case)


def intrange(cr, it, field):
    """range of the integer type of an iterator's field"""
    todo = [it]
    while todo:
        v = todo.pop()
        if v.op != "struct":
            continue
        if field in v.a[1]:
            a = cr.p.adts.get(v.a[0])
            for n, ty in [(x[0], x[1]) for x in a["variants"][0]["fields"]]:
                if n == field:
                    t = cr.p.types[ty] if isinstance(ty, int) else ty
                    if t["k"] == "uint":
                        return (1 << t["bits"]) - 1 if t.get("bits") else (1 << 64) - 1
            raise Unsupported("type of " + field)
        todo += list(v.a[2])
    raise Unsupported("no field " + field)


def step(sp, cr, name, filt, ents, case):
    """the archetypes x, y match the group, n does not; they are listed at position k of a level, or next to it"""
    archs = [("x", (0, 1), {}), ("y", (0, 2), {}), ("n", (1, 2), {}), ("z", (0, 1, 2), {})]
    n1, n2 = param("listed:1", 0, MAXA), param("listed:2", 0, MAXA)
    k = param("at", 0, MAXA)
    plan = {
        "next two": ({"x": 0, "y": 1}, AND(le(add(k, I_(2)), n1), le(I_(1), n2)), ["x", "y"]),
        "skips one": ({"n": 0, "y": 1}, AND(le(add(k, I_(2)), n1), le(I_(1), n2)), ["y"]),
        "next level": ({"x": 0, "z": "next"}, AND(eqi(add(k, I_(1)), n1), le(I_(1), n2)), ["x", "z"]),
        "skips a level": ({"n": 0, "z": "next"}, AND(eqi(add(k, I_(1)), n1), le(I_(1), n2)), ["z"]),
        "end": ({"z": "last"}, eqi(add(k, I_(1)), n2), ["z", None]),
        "starts": ({"x": "first"}, AND(le(I_(1), n1), le(I_(1), n2)), ["x"]),
    }[case]

    def lists(I, st):
        R = I.R
        b1, b2 = mk("init", mk("listbuf", 1)), mk("init", mk("listbuf", 2))
        for n, where in plan[0].items():
            key = level_key(I.w, R.archs[n], R.pos[n])
            if where == "next":
                b2 = mk("upd", b2, mk("i", I_(0)), key)
            elif where == "last":
                b2 = mk("upd", b2, mk("i", k), key)
            elif where == "first":
                b1 = mk("upd", b1, mk("i", I_(0)), key)
            else:
                b1 = mk("upd", b1, mk("i", add(k, I_(where))), key)
        if "next" not in plan[0].values() and "last" not in plan[0].values():
            b2 = mk("upd", b2, mk("i", I_(0)), level_key(I.w, R.archs["z"], R.pos["z"]))
        l = [vecv(EMPTY, I_(0)) for _ in range(CAPN)]
        l[1], l[2] = vecv(b1, n1), vecv(b2, n2)
        st.write(R.obj, (F("archetypes"), F("sorted_mappings")), mk("arr", *l))

    I = Iteration(sp, cr, (K, K, K), archs, lists=lists)
    want = (0,)
    if filt:
        # (what the filter refuses is skipped like what does not match)
        for n, _, _ in archs:
            I.st = assume(I.st, eqi(param("accepts:" + n, 0, 1), I_(1)))
    st = assume(I.st, plan[1])
    if st is None:
        raise Unsupported("contradictory scenario")
    for s, it in I.start(name, want, st=st, filt=filt):
        if case != "starts":
            if not {POS, LEVEL} <= has_fields(it):
                raise Unsupported("iterator state " + str(sorted(has_fields(it))))
            top = intrange(cr, it, POS)
            s = assume(s, le(k, I_(min(top, 1 << 40))))
            it = place_iter(it, {POS: k, LEVEL: I_(2 if case == "end" else 1)})
        work = [(s, it, 0)]
        while work:
            s, it, m = work.pop()
            for s2, it2, v in I.next(s, it):
                exp = plan[2][m]
                if v is None or exp is None:
                    sp.check((v is None) == (exp is None) or not feasible(s2), f"{name} proceeds to the next matching archetype from any position", f"{case}: {'nothing' if v is None else show(v)[:200]} instead of {exp}; {facts_str(s2)}")
                    continue
                got = I.item(s2, v, ents, want, name)
                sp.check(got == exp or not feasible(s2), f"{name} proceeds to the next matching archetype from any position", f"{case}: {got} instead of {exp}; {facts_str(s2)}")
                if got == exp and m + 1 < len(plan[2]):
                    work.append((s2, it2, m + 1))


def visit(sp, cr, name, filt, ents, shape, archs, want):
    I = Iteration(sp, cr, shape, [(n, ks, {}) for n, ks in archs])
    R = I.R
    asked = "an invalid group" if want is None else str(want)
    must_ = [n for n, ks in archs if want is not None and set(want) <= set(ks)]
    work = []
    for s, it in I.start(name, want, filt=filt):
        work.append((s, it, ()))
    while work:
        s, it, seen = work.pop()
        for s2, it2, v in I.next(s, it):
            if v is not None:
                if want is None:
                    sp.check(not feasible(s2), name + ": iteration over an invalid group is empty", show(v)[:200])
                    continue
                n = I.item(s2, v, ents, want, name)
                if n is None:
                    continue
                sp.check(n not in seen or not feasible(s2), name + " visits no archetype twice", f"asked for {asked}: {n}; visited {seen}")
                if n in seen or len(seen) > len(archs):
                    continue
                work.append((s2, it2, seen + (n,)))
                continue
            for n in must_:
                acc = True
                if filt:
                    acc = s2.facts.settle(eqi(param("accepts:" + n, 0, 1), I_(1)))
                if n in seen:
                    sp.check(acc is True or not feasible(s2), name + " visits only archetypes the filter accepts", f"asked for {asked}: {n}")
                else:
                    sp.check(acc is False or not feasible(s2), name + " visits every matching archetype", f"asked for {asked}: misses {n}; visited {seen}")
            for n in seen:
                if n not in must_:
                    sp.check(not feasible(s2), name + " visits only matching archetypes", f"asked for {asked}: {n}")
            unread(sp, R, s2, name)
            for s3, it3, v3 in I.next(s2, it2):
                sp.check(v3 is None or not feasible(s3), name + ": a finished iterator stays finished", f"asked for {asked}")


# ---------------------------------------------------------------- exact iteration
def exact(sp, c):
    sp.rule = "exact"
    for cr in (c, sp.dbg):
        for e in ("", "entity_"):
            for m in ("", "_mut"):
                name = f"iter_{e}components_exact{m}"
                with sp.guard(name):
                    sp.at(cr.fn("Registry", name))
                    for shape, archs, want in (
                        ((K, K, K), ARCHS[:6], (0,)), ((K, K, K), ARCHS[:6], (1, 2)), ((K, K, K), ARCHS[:6], (0, 1, 2)), ((K, K, K), ARCHS[:5], (0, 1, 2)),
                        ((K, K, K), [ARCHS[3]], (0, 1)), ((K, K, K), [ARCHS[2]], (1, 2)), ((K, K, K), [ARCHS[5]], (0, 2)), ((K, K, K), [ARCHS[0]], (0, 2)),
                        ((K, Z, K), ARCHS[:6], (0, 1)), ((Z, K, K), ARCHS[:3], (0,)), ((K, K, K), [], (0, 1)), ((K, K, K), ARCHS[:6], None),
                    ):
                        exactly(sp, cr, name, bool(e), shape, archs, want)


def exactly(sp, cr, name, ents, shape, archs, want):
    I = Iteration(sp, cr, shape, [(n, ks, {}) for n, ks in archs])
    R = I.R
    hit = [n for n, ks in archs if want is not None and ks == want]
    for s, v in I.start(name, want):
        if hit:
            n = I.item(s, v, ents, want, name)
            sp.check(n == hit[0] or not feasible(s), name + " hands out the archetype with exactly the components", f"asked for {want}: {n} instead of {hit[0]}; {show(v)[:200]}")
        else:
            parts = [select_f(v, str(k)) for k in range(2)] if ents else [None, v]
            k = len(want) if want is not None else 0
            for x in ([parts[0]] if ents else []) + [select_f(parts[1], str(i)) for i in range(k)]:
                if x.op != "fat":
                    raise Unsupported("slices " + show(x)[:200])
                agree(sp, s, x.a[3], I_(0), name + " hands out empty slices when no archetype has exactly the components", f"asked for {want}")
        unread(sp, R, s, name)


# ---------------------------------------------------------------- invalid groups
def invalid_iter(sp, c):
    sp.rule = "invalid-groups-iteration"
    for cr in (c, sp.dbg):
        for name, filt, ents in NAMES:
            with sp.guard(name):
                sp.at(cr.fn("Registry", name))
                visit(sp, cr, name, filt, ents, (K,) * 4, ARCHS, None)
                visit(sp, cr, name, filt, ents, (K,) * 4, [], None)
        for e in ("", "entity_"):
            for m in ("", "_mut"):
                name = f"iter_{e}components_exact{m}"
                with sp.guard(name):
                    sp.at(cr.fn("Registry", name))
                    exactly(sp, cr, name, bool(e), (K,) * 4, ARCHS, None)


def invalid_groups(sp, c):
    sp.rule = "invalid-groups"
    for cr in (c, sp.dbg):
        for have in ((0, 1), (0,), (0, 1, 2)):
            C = Case(sp, cr, (K, K, K), False, have, [], table="room")
            w, R = C.w, C.R
            bind = w.gbind(None, C.st)
            value = tup([w.value(C.all[0]), w.value(C.all[0], "again")])
            with sp.guard("create_entity"):
                sp.at(cr.fn("Registry", "create_entity"))
                for s, v in returns(sp, w.run("Registry", "create_entity", C.st, [R.ref, value], bind)):
                    if v.a[2] == "Ok":
                        sp.check(not feasible(s), "an invalid group creates no entity", facts_str(s))
                    else:
                        agree(sp, s, v.a[4][0], value, "create_entity hands an invalid group back")
                        intact(sp, R, s, "a refused create_entity")
            for name in ("remove_entity", "get_components", "get_components_mut", "has_components"):
                with sp.guard(name):
                    sp.at(cr.fn("Registry", name))
                    for s, v in returns(sp, w.run("Registry", name, C.st, [R.ref, R.h["e"]], bind)):
                        agree(sp, s, v, FALSE if name.startswith("has") else none(), name + " refuses an invalid group")
                        intact(sp, R, s, name + " of an invalid group")


# ---------------------------------------------------------------- shared access
def shared(sp, c):
    """nothing is written, allocated or destroyed by any operation on a shared reference"""
    sp.rule = "shared-access"
    for cr in (c, sp.dbg):
        for shape, have, want in (((K, K, K), (0, 1, 2), (1,)), ((K, K, K), (0, 1), (2,)), ((K, K, K), (0, 1, 2), (0, 2)), ((K, Z, K), (0, 1), (0, 1)), ((K, K), (0, 1), None)):
            for name in ("has_component", "get_component", "has_components", "get_components"):
                one = name in SINGLES
                if one and (want is None or len(want) != 1):
                    continue
                with sp.guard(name):
                    sp.at(cr.fn("Registry", name))
                    C = Case(sp, cr, shape, False, have, [])
                    st = C.st.copy()
                    ts = None if want is None else [C.all[k] for k in want]
                    bind = C.w.cbind(ts[0]) if one else C.w.gbind(ts, st)
                    for s, k, v in C.w.run("Registry", name, st, [C.R.ref, C.R.h["e"]], bind):
                        unread(sp, C.R, s, name)
        for name in ("has_component", "get_component", "has_components", "get_components"):
            with sp.guard(name):
                sp.at(cr.fn("Registry", name))
                for C, h, s in dead_handles(sp, cr):
                    bind = C.w.cbind(C.ts[0]) if name in SINGLES else C.w.gbind(C.ts, s)
                    for s2, k, v in C.w.run("Registry", name, s, [C.R.ref, h], bind):
                        unread(sp, C.R, s2, name)
        for name, filt, ents in NAMES:
            if name.endswith("_mut"):
                continue
            with sp.guard(name):
                sp.at(cr.fn("Registry", name))
                for want in ((0,), (1, 2), None):
                    I = Iteration(sp, cr, (K,) * 3, [(n, ks, {}) for n, ks in ARCHS[:6]])
                    st = I.st.copy()
                    I.bind = I.w.gbind(None if want is None else [I.all[k] for k in want], st)
                    work = [(s, v) for s, k, v in I.w.run("Registry", name, st, [I.R.ref] + ([FILTER] if filt else []), I.bind) if k == "ret"]
                    n = 0
                    while work and n < 200:
                        n += 1
                        s, it = work.pop()
                        s = s.copy()
                        cc = cell(s, "iterator", it)
                        for s2, k, v in I.w.run(basename(it.a[0]), "next", s, [cc], I.bind, "Iterator"):
                            unread(sp, I.R, s2, name)
                            if k == "ret" and v.op == "variant" and v.a[2] == "Some":
                                work.append((s2, s2.rd(mk("obj", cc))))
        for name in ("iter_components_exact", "iter_entity_components_exact"):
            with sp.guard(name):
                sp.at(cr.fn("Registry", name))
                for want in ((0,), (0, 1), (1, 2), (2,)):
                    I = Iteration(sp, cr, (K,) * 3, [(n, ks, {}) for n, ks in ARCHS[:4]])
                    st = I.st.copy()
                    I.bind = I.w.gbind([I.all[k] for k in want], st)
                    for s, k, v in I.w.run("Registry", name, st, [I.R.ref], I.bind):
                        unread(sp, I.R, s, name)
        with sp.guard("iter_entities"):
            sp.at(cr.fn("Registry", "iter_entities"))
            C = Case(sp, cr, (K, K), False, (0, 1), [], table="room")
            s0 = assume(C.st, eqi(C.R.nt, I_(3)))
            for s, k, v in C.w.run("Registry", "iter_entities", s0, [C.R.ref]):
                work = [(s, v)] if k == "ret" else []
                n = 0
                while work and n < 100:
                    n += 1
                    s, it = work.pop()
                    s = s.copy()
                    cc = cell(s, "iterator", it)
                    for s2, k2, v2 in C.w.run(basename(it.a[0]), "next", s, [cc], None, "Iterator"):
                        unread(sp, C.R, s2, "iter_entities")
                        if k2 == "ret" and v2.op == "variant" and v2.a[2] == "Some":
                            work.append((s2, s2.rd(mk("obj", cc))))
