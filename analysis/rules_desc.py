"""Component, archetype and group descriptors."""

import itertools
import random
from arch import *

CAPN = 14


def view(w, st, v):
    """(components, id) of an archetype descriptor as its accessors show them"""
    st = st.copy()
    r = cell(st, "desc", v)
    c = w.one("ArchetypeDescriptor", "components", st, [r])
    n = w.one("ArchetypeDescriptor", "len", st, [r])
    i = w.one("ArchetypeDescriptor", "archetype_id", st, [r])
    if c.op != "fat" or c.a[2].op != "int" or c.a[3].op != "int":
        raise Unsupported("component list " + show(c))
    l = [st.read(c.a[0], c.a[1] + (mk("i", I_(c.a[2].a[0] + k)),)) for k in range(c.a[3].a[0])]
    return l, n, i


def isvalid(w, st, v, want, what, ty="ArchetypeDescriptor"):
    s = st.copy()
    r = cell(s, "desc", v)
    keep = w.sp.cur
    observes(w.sp, w.cr, ty, "is_valid", s, [r], want, what, eng=w.engine())
    w.sp.cur = keep


def outcome(sp, s, v, want, what):
    """an optional result is Some exactly when wanted; returns whether to look into it"""
    if v.op != "variant":
        sp.undecided(what, show(v)[:200])
        return False
    if v.a[2] != ("Some" if want else "None"):
        never(sp, s, what, show(v)[:200])
        return False
    sp.check(True, what)
    return want


def idof(w, st, ds):
    """the id the crate computes for a sorted component list, on this path"""
    s = st.copy()
    r = cell(s, "list", mk("arr", *ds))
    outs = w.run("ArchetypeDescriptor", "compute_archetype_id", s, [mk("fat", mk("obj", r), (), I_(0), I_(len(ds)))])
    return [(o[0], o[2]) for o in outs if o[1] == "ret"]


def is_desc(w, st, v, ds, what):
    """v describes exactly the component list ds, canonically"""
    sp = w.sp
    l, n, i = view(w, st, v)
    agree(sp, st, n, I_(len(ds)), what + ": the length is the number of components")
    part = what + ": holds exactly the described components in id order"
    if len(l) != len(ds):
        never(sp, st, part, f"{len(l)} components instead of {len(ds)}")
    elif all(same(st, x, y) for x, y in zip(l, ds)):
        sp.check(True, part)
    else:
        for x, y in zip(l, ds):
            agree(sp, st, x, y, part)
    for s, x in idof(w, st, ds):
        agree(sp, s, i, x, what + ": carries the id of its component list")
    isvalid(w, st, v, True, what + ": is valid")


def tys(n):
    return [Ty(f"{k:02}") for k in range(n)]


def chain(ts):
    """facts that the types' ids are distinct and increasing, and none is the reserved id"""
    return S(*[lt(a.id, b.id) for a, b in itertools.combinations(ts, 2)])


# ---------------------------------------------------------------- single descriptors
def component_descriptor(sp, c):
    sp.rule = "component-descriptor"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        f = cr.fn("ComponentDescriptor", "new")
        sp.at(f)
        raw = param("raw_id", 0, 65535)
        size, align = param("size", 0, 65535), param("align", 0, 65535)
        d = mk("dropfn", "D")
        for cond, good in ((lt(raw, I_(65535)), True), (eqi(raw, I_(65535)), False)):
            st = S(cond)
            i = w.one("ComponentTypeId", "from_u16", S(), [raw])
            r = cell(st, "id", i)
            observes(sp, cr, "ComponentTypeId", "is_valid", st, [r], good, f"a type id is valid unless it is the reserved one ({good})")
            agree(sp, st, w.one("ComponentTypeId", "into_u16", st, [i]), raw, "a type id keeps its number")
            for s, v in rets(sp, w.run("ComponentDescriptor", "new", st, [i, size, align, d]), "ComponentDescriptor::new never panics"):
                q = cell(s, "cd", v)
                got = [w.one("ComponentDescriptor", n, s, [q]) for n in ("component_type_id", "size", "align")]
                if good:
                    for x, y in zip(got, (i, size, align)):
                        agree(sp, s, x, y, "a component descriptor keeps id, size and align")
                    h = select_f(select_f(v, "fns"), "drop_handler")
                    if h is d or h.op in ("dropfn", "fnitem"):
                        sp.check(h is d, "a component descriptor keeps its drop handler", show(h))
                    else:
                        sp.undecided("a component descriptor keeps its drop handler", show(h))
                else:
                    rr = cell(s, "cid", got[0])
                    observes(sp, cr, "ComponentTypeId", "is_valid", s, [rr], False, "a descriptor for the reserved id is invalid")
        # archetype ids
        n = param("raw_archetype_id", 0, (1 << 32) - 1)
        for cond, good in ((lt(n, I_((1 << 32) - 1)), True), (eqi(n, I_((1 << 32) - 1)), False)):
            st = S(cond)
            i = w.one("ArchetypeId", "from_u32", S(), [n])
            r = cell(st, "id", i)
            observes(sp, cr, "ArchetypeId", "is_valid", st, [r], good, f"an archetype id is valid unless it is the reserved one ({good})")
            agree(sp, st, w.one("ArchetypeId", "into_u32", st, [i]), n, "an archetype id keeps its number")
        # archetype descriptors from parts
        f = cr.fn("ArchetypeDescriptor", "new")
        sp.at(f)
        arr = mk("arr", *[w.cdesc(t, S()) for t in tys(CAPN)])
        for ln in (0, 1, 14):
            for cond, good in ((lt(n, I_((1 << 32) - 1)), ln > 0), (eqi(n, I_((1 << 32) - 1)), False)):
                st = S(cond)
                i = w.one("ArchetypeId", "from_u32", S(), [n])
                for s, v in rets(sp, w.run("ArchetypeDescriptor", "new", st, [i, I_(ln), arr]), "ArchetypeDescriptor::new never panics"):
                    isvalid(w, s, v, good, f"an archetype descriptor is valid exactly with a valid id and components ({ln}, {good})")
                    if good:
                        l, m, x = view(w, s, v)
                        what = "an archetype descriptor keeps its parts"
                        agree(sp, s, m, I_(ln), what)
                        agree(sp, s, x, i, what)
                        for a, b in zip(l, arr.a):
                            agree(sp, s, a, b, what)
        # a single component as archetype
        t = Ty("00")
        for self_ty, byref in (("ComponentDescriptor", False), ("&descriptors::component_descriptor::ComponentDescriptor", True)):
            fs = [f for f in cr.p.fns if f.get("name") == "into" and f.get("inst") in cr.p.insts and f.get("_trait") == "Into" and "ComponentDescriptor" in f["_self"] and f["_self"].startswith("&") == byref]
            for f in fs:
                sp.at(f)
                st = S()
                d = w.cdesc(t, st)
                a = cell(st, "cd", d) if byref else d
                for s, v in rets(sp, sp.run(cr, f, st, [a], eng=w.engine()), "the conversion never panics"):
                    is_desc(w, s, v, [d], "a component descriptor converted to an archetype descriptor")


# ---------------------------------------------------------------- archetype ids
def archetype_ids(sp, c):
    sp.rule = "archetype-id"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        f = cr.fn("ArchetypeDescriptor", "compute_archetype_id")
        for n in range(0, CAPN + 1):
            sp.at(f)
            ts = tys(n)
            st = chain(ts)
            outs = rets(sp, w.run("ArchetypeDescriptor", "compute_archetype_id", st, [mk("fat", mk("obj", cell(st, "list", mk("arr", *[w.cdesc(t, st) for t in ts]))), (), I_(0), I_(n))]), "compute_archetype_id never panics")
            for s, v in outs:
                r = cell(s, "aid", v)
                observes(sp, cr, "ArchetypeId", "is_valid", s, [r], n > 0, f"the id of {n} components is {'valid' if n else 'invalid'}")
                deps = []
                walk(v, lambda x: deps.append(x) if x.op == "param" else None)
                sp.check(all(x in [t.id for t in ts] for x in deps), "an archetype id depends on the component ids only", show(v))


# ---------------------------------------------------------------- adding and removing
def add_remove(sp, c):
    sp.rule = "descriptor-edit"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        fa, fr = cr.fn("ArchetypeDescriptor", "add_component"), cr.fn("ArchetypeDescriptor", "remove_component")
        sizes = range(1, CAPN + 1) if cr is c or DEEP else (1, 2, 3, 13, 14)
        for n in sizes:
            ts = tys(n + 1)
            st0 = chain(ts)
            ds = [w.cdesc(t, st0) for t in ts]
            ps = range(n + 1) if cr is c or n < 4 else (0, n // 2, n)
            for p in ps:
                # all but the p-th
                old = ds[:p] + ds[p + 1 :]
                st = st0.copy()
                a = w.adesc(old, st)
                r = cell(st, "archetype", a)
                dn = cell(st, "new", ds[p])
                sp.at(fa)
                for s, v in rets(sp, w.run("ArchetypeDescriptor", "add_component", st, [r, dn]), "add_component never panics"):
                    if n == CAPN:
                        outcome(sp, s, v, False, "nothing can be added to a full archetype descriptor")
                    elif outcome(sp, s, v, True, f"a missing component can be added (to {n})"):
                        is_desc(w, s, v.a[4][0], ds, "adding a component")
                    agree(sp, s, s.rd(mk("obj", r)), a, "add_component leaves the original alone")
                sp.at(fr)
                cid = w.one("ComponentTypeId", "from_u16", S(), [ts[p].id])
                for s, v in rets(sp, w.run("ArchetypeDescriptor", "remove_component", st, [r, cid]), "remove_component never panics"):
                    outcome(sp, s, v, False, "a missing component cannot be removed")
                bind = {"C": {"Component::DESCRIPTOR": ds[p], "Component::ID": cid, "size": ts[p].size, "align": ts[p].align}}
                hasc(sp, w, cr, st, r, bind, False)
                # present ones
                q = [k for k in range(n + 1) if k != p]
                for k in q if p == n and (cr is c or n < 4) else ():
                    bind = {"C": {"Component::DESCRIPTOR": ds[k], "Component::ID": w.one("ComponentTypeId", "from_u16", S(), [ts[k].id])}}
                    hasc(sp, w, cr, st, r, bind, True)
                    dk = cell(st, "dup", ds[k])
                    sp.at(fa)
                    for s, v in rets(sp, w.run("ArchetypeDescriptor", "add_component", st, [r, dk]), "add_component never panics"):
                        outcome(sp, s, v, False, "a component that is present cannot be added again")
                    sp.at(fr)
                    for s, v in rets(sp, w.run("ArchetypeDescriptor", "remove_component", st, [r, bind["C"]["Component::ID"]]), "remove_component never panics"):
                        if n == 1:
                            outcome(sp, s, v, False, "the last component cannot be removed")
                        elif outcome(sp, s, v, True, f"a component that is present can be removed (from {n})"):
                            is_desc(w, s, v.a[4][0], [x for x in old if x is not ds[k]], "removing a component")
                        agree(sp, s, s.rd(mk("obj", r)), a, "remove_component leaves the original alone")


def hasc(sp, w, cr, st, r, bind, want):
    f = cr.fn("ArchetypeDescriptor", "has_component")
    keep, sp.cur = sp.cur, f
    for s, v in rets(sp, sp.run(cr, f, st, [r], eng=w.engine(bind)), "has_component never panics"):
        true(sp, s, v if want else NOT(v), f"has_component is {want} for a component that is {'present' if want else 'absent'}", show(v))
    sp.cur = keep


# ---------------------------------------------------------------- set predicates
def patterns():
    """(members of the first list, members of the second list) over ordered ids"""
    for u in range(1, 7 if DEEP else 5):
        for cat in itertools.product((1, 2, 3), repeat=u):
            yield u, [k for k in range(u) if cat[k] & 1], [k for k in range(u) if cat[k] & 2]
    full = list(range(CAPN))
    for k in range(CAPN):
        yield CAPN, full, [k]
        yield CAPN, [k], full
    yield CAPN, full, full
    for k in (0, 7, 14):
        yield CAPN + 1, [x for x in range(15) if x != k], [x for x in range(15) if x != (k + 5) % 15]
        yield CAPN + 1, [x for x in range(15) if x != k], [k]
    yield CAPN, full[:7], full[7:]
    yield CAPN, full[::2], full[1::2]
    yield CAPN, full[::2], full[::4]
    yield CAPN, full, full[1:13]
    yield CAPN, full[1:13], full
    rnd = random.Random(11)
    for _ in range(200 if DEEP else 0):
        u = rnd.randint(7, CAPN)
        cat = [rnd.choice((1, 2, 3, 3)) for _ in range(u)]
        yield u, [k for k in range(u) if cat[k] & 1], [k for k in range(u) if cat[k] & 2]


def predicates(sp, c):
    sp.rule = "set-predicates"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        for u, a, b in patterns():
            if cr is sp.dbg and u == 4:
                continue
            ts = tys(u)
            st = chain(ts)
            ds = [w.cdesc(t, st) for t in ts]
            inv = w.invalid("ArchetypeDescriptor")
            ra = cell(st, "first", w.adesc([ds[k] for k in a], st) if a else inv)
            rb = cell(st, "second", w.adesc([ds[k] for k in b], st) if b else inv)
            want = {"contains_subset": set(b) <= set(a), "excludes_subset": not set(a) & set(b)}
            for name, x in want.items():
                f = cr.fn("ArchetypeDescriptor", name)
                sp.at(f)
                for s, v in rets(sp, w.run("ArchetypeDescriptor", name, st, [ra, rb]), name + " never panics"):
                    why = f"{len(a)} and {len(b)} components, {set(a)} / {set(b)}: {show(v)}, expected {x}"
                    true(sp, s, v if x else NOT(v), f"{name} decides {'set inclusion' if name[0] == 'c' else 'disjointness'}", why)


# ---------------------------------------------------------------- groups
def perms():
    for n in range(1, 6 if DEEP else 5):
        yield from itertools.permutations(range(n))
    rnd = random.Random(7)
    for n in range(6 if DEEP else 5, CAPN + 1):
        l = list(range(n))
        yield tuple(l)
        yield tuple(reversed(l))
        yield tuple(l[n // 2 :] + l[: n // 2])
        for _ in range(12 if DEEP else 2 if n < 9 else 1):
            m = l[:]
            rnd.shuffle(m)
            yield tuple(m)


def groups(sp, c):
    sp.rule = "group-descriptor"
    for cr in (c, sp.dbg):
        w = World(sp, cr)
        f = cr.fn("ComponentGroupDescriptor", "new")
        sp.at(f)
        for perm in perms():
            n = len(perm)
            if cr is sp.dbg and n > 3:
                continue
            ts = tys(n)
            st = chain(ts)
            ds = [w.cdesc(t, st) for t in ts]
            r = cell(st, "descs", mk("arr", *[ds[k] for k in perm]))
            outs = rets(sp, w.run("ComponentGroupDescriptor", "new", st, [r], {"N": I_(n)}), "a group descriptor can always be computed")
            for s, v in outs:
                group_is(w, s, v, ds, perm)
        # duplicates, too few, too many
        for n in (2, 3, 4):
            for i, j in itertools.combinations(range(n), 2):
                repeated(sp, w, n, i, j)
        badgroup(sp, w, S(), [], "an empty group is invalid")
        ts = tys(15)
        st = chain(ts)
        badgroup(sp, w, st, [w.cdesc(t, st) for t in ts], "a group with too many components is invalid")
        v = w.invalid("ComponentGroupDescriptor")
        isvalid(w, S(), v, False, "the invalid group descriptor is not valid", "ComponentGroupDescriptor")


def repetitions(sp, c):
    """a component at any two places of a group of any size"""
    sp.rule = "repeated-components"
    w = World(sp, c)
    sp.at(c.fn("ComponentGroupDescriptor", "new"))
    for n in range(5, 15):
        for i, j in itertools.combinations(range(n), 2):
            repeated(sp, w, n, i, j)


def repeated(sp, w, n, i, j):
    ts = tys(n)
    st = S(*[lt(a.id, b.id) for a, b in itertools.combinations(ts[:j] + ts[j + 1 :], 2)])
    st = st.assume(eqi(ts[i].id, ts[j].id))
    ds = [w.cdesc(t, st) for t in ts]
    badgroup(sp, w, st, ds, "a group with a repeated component is invalid")


def badgroup(sp, w, st, ds, what):
    r = cell(st, "descs", mk("arr", *ds))
    for s, v in rets(sp, w.run("ComponentGroupDescriptor", "new", st, [r], {"N": I_(len(ds))}), "a group descriptor can always be computed"):
        isvalid(w, s, v, False, what, "ComponentGroupDescriptor")


def group_is(w, s, v, ds, perm):
    sp, n = w.sp, len(perm)
    isvalid(w, s, v, True, f"a group of {n} distinct components is valid", "ComponentGroupDescriptor")
    r = cell(s, "group", v)
    a = w.one("ComponentGroupDescriptor", "archetype", s, [r])
    is_desc(w, s, s.read(a.a[0], a.a[1]) if a.op == "ref" else s.rd(mk("obj", a)), ds, "a group")
    ln = w.one("ComponentGroupDescriptor", "len", s, [r])
    agree(sp, s, ln, I_(n), "a group's length is its number of components", show(ln))
    for k, p in enumerate(perm):
        x = w.one("ComponentGroupDescriptor", "unsorted_to_sorted", s, [r, I_(k)])
        agree(sp, s, x, I_(p), "unsorted_to_sorted maps a tuple position to its sorted position", f"{k} -> {show(x)} instead of {p}")
        x = w.one("ComponentGroupDescriptor", "sorted_to_unsorted", s, [r, I_(p)])
        agree(sp, s, x, I_(k), "sorted_to_unsorted maps a sorted position to its tuple position", f"{p} -> {show(x)} instead of {k}")
