"""The archetype registry: one archetype per component set, at a position that never changes."""

from itertools import permutations
from rules_reg import *
from rules_reg import K


def default_areg(w, cr, st):
    outs = [o for o in w.run("ArchetypeRegistry", "default", st, [], trait="Default")]
    if len(outs) != 1 or outs[0][1] != "ret":
        raise Unsupported("default registry")
    s = outs[0][0]
    s.facts = outs[0][0].facts
    return s, outs[0][2]


def refpos(v):
    """position an archetype reference refers to"""
    if v.op == "ref" and v.a[1] and v.a[1][-1].op == "i":
        return v.a[1][-1].a[0]
    raise Unsupported("archetype reference " + show(v)[:200])


def foc(sp, w, s, areg, desc):
    """find_or_create_archetype: [(state, None | (number, position of the returned archetype))]"""
    s0 = s.copy()
    q = cell(s0, "wanted", desc)
    r = []
    for s2, v in returns(sp, w.run("ArchetypeRegistry", "find_or_create_archetype", s0, [areg, q])):
        if v.op != "variant":
            raise Unsupported("result " + show(v))
        if v.a[2] == "None":
            r.append((s2, None))
        else:
            x = v.a[4][0]
            r.append((s2, (select_f(x, "0"), refpos(select_f(x, "1")))))
    return r


def lookup(sp, w, s, areg, desc, mut=False):
    s0 = s.copy()
    q = cell(s0, "wanted", desc)
    r = []
    for s2, v in returns(sp, w.run("ArchetypeRegistry", "find_archetype" + ("_mut" if mut else ""), s0, [areg, q])):
        if v.op != "variant":
            raise Unsupported("result " + show(v))
        r.append((s2, refpos(v.a[4][0]) if v.a[2] == "Some" else None))
    return r


def forms(w, all_, sets, st):
    """[(state, {set: descriptor})]"""
    work = [(st, {})]
    for ks in sets:
        nxt = []
        for s, d in work:
            for s2, x in w.desc_forms([all_[k] for k in ks], s):
                nxt.append((s2, dict(d, **{str(ks): x})))
        work = nxt
    return work


def sequences(sp, c):
    """archetypes are created in every order, looked up after each step, for every order and collision of their hashes"""
    orders(sp, c, [list(p) for p in permutations(((0, 1), (0, 2), (1, 2)))])


DEEPER = [list(p) for p in permutations(((0, 1), (2,), (1, 3)))] + [[(0, 1, 2), (1, 2, 3), (0, 2, 3)], [(0, 3), (1, 2), (1, 3)]] if DEEP else []


def sequences_mixed(sp, c):
    orders(sp, c, [list(p) for p in permutations(((0,), (0, 1), (0, 1, 2)))] + [[(0, 1), (2, 3), (1, 2)], [(1,), (0,), (2,)]] + DEEPER)


def orders(sp, c, todo):
    sp.rule = "one-archetype-per-set"
    for cr in (c, sp.dbg):
        for seq in todo if cr is c or DEEP else todo[:1] + todo[-2:]:
            with sp.guard(f"creating {seq}"):
                sp.at(cr.fn("ArchetypeRegistry", "find_or_create_archetype"))
                sequence(sp, cr, seq)


def sequence(sp, cr, seq):
    w, ts, st = rworld(sp, cr, (K,) * 4)
    s, v = default_areg(w, cr, st)
    areg = cell(s, "archetypes", v)
    for s0, d in forms(w, ts, seq, s):
        work = [(s0, 0)]
        while work:
            s, i = work.pop()
            # what is in so far is found at its place, what is not is not found
            for j, ks in enumerate(seq):
                for mut in (False, True):
                    for s2, p in lookup(sp, w, s, areg, d[str(ks)], mut):
                        what = "find_archetype" + ("_mut" if mut else "")
                        if j < i:
                            if p is None:
                                sp.check(not feasible(s2), what + " finds every existing archetype", f"{ks} after creating {seq[:i]}; {facts_str(s2)}")
                            else:
                                agree(sp, s2, p, I_(j), what + " finds every existing archetype at its place", f"{ks} after creating {seq[:i]}")
                                holds_set(sp, w, s2, areg, p, [ts[k] for k in ks], what)
                        else:
                            sp.check(p is None or not feasible(s2), what + " finds nothing for a component set not stored before", f"{ks} after creating {seq[:i]}: {p is not None and show(p)}; {facts_str(s2)}")
            # asking again for the existing ones changes nothing
            for j in range(i):
                for s2, r in foc(sp, w, s, areg, d[str(seq[j])]):
                    if r is None:
                        sp.check(not feasible(s2), "find_or_create_archetype returns the existing archetype", "nothing")
                        continue
                    agree(sp, s2, r[0], I_(j), "find_or_create_archetype returns the existing archetype", f"{seq[j]} after creating {seq[:i]}; {facts_str(s2)}")
                    agree(sp, s2, r[1], I_(j), "find_or_create_archetype returns the existing archetype", f"{seq[j]} after creating {seq[:i]}")
                    agree(sp, s2, rd_len(s2, areg), I_(i), "find_or_create_archetype creates an archetype only for a new set", f"{seq[j]} after creating {seq[:i]}")
            if i == len(seq):
                continue
            for s2, r in foc(sp, w, s, areg, d[str(seq[i])]):
                if r is None:
                    sp.check(not feasible(s2), "find_or_create_archetype creates an archetype for a new set", facts_str(s2))
                    continue
                agree(sp, s2, r[0], I_(i), "a new archetype gets the next number", f"{seq[i]} after creating {seq[:i]}; {facts_str(s2)}")
                agree(sp, s2, r[1], I_(i), "a new archetype is returned", f"{seq[i]} after creating {seq[:i]}")
                agree(sp, s2, rd_len(s2, areg), I_(i + 1), "exactly one archetype is created for a new set", f"{seq[i]} after creating {seq[:i]}")
                holds_set(sp, w, s2, areg, I_(i), [ts[k] for k in seq[i]], "a new archetype")
                work.append((s2, i + 1))


def rd_len(s, areg):
    return s.read(mk("obj", areg), (F("archetypes"), F("$len")))


def arch_at(s, areg, p):
    root, proj = (areg.a[0], areg.a[1]) if areg.op == "ref" else (mk("obj", areg), ())
    return split(s, lambda y: y.read(root, proj + (F("archetypes"), F("$buf"), mk("i", p))))


def holds_set(sp, w, s, areg, p, ts, what):
    for s2, a in arch_at(s, areg, p):
        if a.op != "struct":
            raise Unsupported("archetype " + show(a)[:100])
        d = select_f(a, "descriptor")
        agree(sp, s2, select_f(d, "len"), I_(len(ts)), what + ": the archetype has exactly the components of the set")
        for k, t in enumerate(ts):
            x = select_i(select_f(d, "components"), I_(k), None)
            agree(sp, s2, flat(select_f(x, "component_type_id")), t.id, what + ": the archetype has exactly the components of the set", t.name)
            agree(sp, s2, select_f(x, "size"), t.size, what + ": the archetype knows the components' layout", t.name)
            agree(sp, s2, select_f(x, "align"), t.align, what + ": the archetype knows the components' layout", t.name)


def flat(v):
    while v.op == "struct" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


# ---------------------------------------------------------------- arbitrary positions, limits
def arbitrary(sp, c):
    """archetypes at arbitrary positions, any number of other archetypes"""
    sp.rule = "archetype-registry-step"
    for cr in (c, sp.dbg):
        for have, want in (
            (("x", (0, 1)), (0, 1)), (("x", (0, 1)), (1, 2)), (("x", (0,)), (1,)), (("x", (0,)), (0, 1)), (("x", (0, 1, 2)), (0, 1, 2)), (("x", (0, 1, 2)), (0, 1)), (None, (0, 1)), (None, (2,)),
        ):
            with sp.guard("find_or_create_archetype"):
                sp.at(cr.fn("ArchetypeRegistry", "find_or_create_archetype"))
                one_foc(sp, cr, have, want)
        with sp.guard("invalid sets"):
            sp.at(cr.fn("ArchetypeRegistry", "find_or_create_archetype"))
            w, ts, st = rworld(sp, cr, (K, K))
            R = Reg(w, st, [("x", [ts[0]], {})])
            d = w.invalid("ArchetypeDescriptor")
            for s, r in foc(sp, w, st, R.aref(), d):
                sp.check(r is None or not feasible(s), "no archetype is created for an invalid set")
                intact(sp, R, s, "an invalid set")
            for mut in (False, True):
                for s, r in lookup(sp, w, st, R.aref(), d, mut):
                    sp.check(r is None or not feasible(s), "no archetype is found for an invalid set")
                    intact(sp, R, s, "an invalid set")
        for which in ("adding", "removing"):
            with sp.guard("find_or_create_archetype_" + which):
                sp.at(cr.fn("ArchetypeRegistry", f"find_or_create_archetype_{which}_component"))
                for kind in ("exists", "new", "neighbour", "not possible", "no such archetype", "limit"):
                    one_adding(sp, cr, which, kind)
        with sp.guard("access by number"):
            w, ts, st = rworld(sp, cr, (K, K))
            R = Reg(w, st, [("x", [ts[0]], {})])
            for name, tr in (("get_unchecked", ""), ("get_unchecked_mut", ""), ("index", "Index"), ("index_mut", "IndexMut")):
                sp.at(cr.fn("ArchetypeRegistry", name, tr))
                p = param("number", 0, MAXA - 1)
                s0 = assume(st, lt(p, R.na))
                for s, v in returns(sp, w.run("ArchetypeRegistry", name, s0, [R.aref(), p], trait=tr)):
                    agree(sp, s, refpos(v), p, name + " returns the archetype with the number")


def one_foc(sp, cr, have, want):
    w, ts, st = rworld(sp, cr, (K,) * 3)
    R = Reg(w, st, [(have[0], [ts[k] for k in have[1]], {})] if have else [])
    for full in (False, True):
        for s0, d in w.desc_forms([ts[k] for k in want], st):
            s0 = assume(s0, eqi(R.na, I_(MAXA)) if full else lt(R.na, I_(MAXA)))
            if s0 is None:
                continue
            exists = have is not None and have[1] == want
            for s, r in foc(sp, w, s0, R.aref(), d):
                what = "find_or_create_archetype"
                if r is None:
                    sp.check(full and not exists or not feasible(s), what + " succeeds while the limit is not reached", facts_str(s))
                    intact(sp, R, s, "a failed " + what)
                    continue
                if full and not exists:
                    sp.check(not feasible(s), what + " creates nothing beyond the limit", facts_str(s))
                    continue
                p = R.pos["x"] if exists else R.na
                agree(sp, s, r[0], p, what + " returns the number of the archetype", facts_str(s))
                agree(sp, s, r[1], p, what + " returns the archetype", facts_str(s))
                agree(sp, s, R.count(s), R.na if exists else add(R.na, I_(1)), what + " creates an archetype exactly for a new set")
                holds_set(sp, w, s, R.aref(), p, [ts[k] for k in want], what)
                if exists:
                    intact(sp, R, s, what + " of an existing set")
                else:
                    for s2, a in R.archat(s, p):
                        agree(sp, s2, select_f(a, "entity_count"), I_(0), "a new archetype is empty")
                    for n in R.archs:
                        other_rows(sp, R, s, n, what)
                        found(sp, R, s, n, what)
                    findable(sp, R, s, [ts[k] for k in want], p, what)
                    rest(sp, R, s, what)
                    all_storage(sp, R, s, what, [ts[k] for k in want])
                no_drop(sp, s, what)
            if have and not exists:
                for mut in (False, True):
                    for s, r in lookup(sp, w, s0, R.aref(), d, mut):
                        sp.check(r is None or not feasible(s), "find_archetype finds only the archetype of exactly the set", facts_str(s))


def one_adding(sp, cr, which, kind):
    """t1 is added to {t0, t2} or removed from {t0, t1, t2}"""
    w, ts, st = rworld(sp, cr, (K,) * 4)
    small, big = (0, 2), (0, 1, 2)
    src, dst = (small, big) if which == "adding" else (big, small)
    t = 1
    archs = [("src", [ts[k] for k in src], {})]
    if kind == "exists":
        archs.append(("dst", [ts[k] for k in dst], {}))
    if kind == "neighbour":
        archs.append(("near", [ts[k] for k in sorted(set(dst) - {0} | {3})], {}))
    R = Reg(w, st, archs)
    p0 = R.pos["src"]
    if kind == "not possible":
        t = 0 if which == "adding" else 3
    if kind == "no such archetype":
        p0 = param("number", 0, MAXA)
        st = assume(st, le(R.na, p0))
    elif kind == "limit":
        st = assume(st, eqi(R.na, I_(MAXA)))
    elif kind in ("new", "neighbour"):
        st = assume(st, lt(R.na, I_(MAXA)))
    s0 = st.copy()
    q = cell(s0, "component", w.cdesc(ts[t], s0))
    name = f"find_or_create_archetype_{which}_component"
    fails_ = kind in ("not possible", "no such archetype", "limit")
    for s, v in returns(sp, w.run("ArchetypeRegistry", name, s0, [R.aref(), p0, q])):
        if v.op != "variant":
            raise Unsupported("result " + show(v))
        if v.a[2] == "None":
            sp.check(fails_ or not feasible(s), name + " succeeds", f"{kind}; {facts_str(s)}")
            intact(sp, R, s, "a failed " + name)
            continue
        if fails_:
            sp.check(not feasible(s), name + " fails", f"{kind}; {facts_str(s)}")
            continue
        x = v.a[4][0]
        p = R.pos["dst"] if kind == "exists" else R.na
        agree(sp, s, refpos(select_f(x, "0")), p0, name + " returns the source archetype")
        agree(sp, s, select_f(x, "1"), p, name + " returns the number of the destination archetype")
        agree(sp, s, refpos(select_f(x, "2")), p, name + " returns the destination archetype")
        agree(sp, s, R.count(s), R.na if kind == "exists" else add(R.na, I_(1)), name + " creates an archetype exactly for a new set")
        holds_set(sp, w, s, R.aref(), p, [ts[k] for k in dst], name)
        for n in R.archs:
            other_rows(sp, R, s, n, name)
            found(sp, R, s, n, name)
        findable(sp, R, s, [ts[k] for k in dst], p, name)
        rest(sp, R, s, name)
        no_drop(sp, s, name)


# ---------------------------------------------------------------- lists of any length
FOUND, PLACE = param("found", 0, MAXA - 1), param("place", 0, MAXA)


def anysearch(found):
    """the search finds an unknown key / finds an unknown place to insert at"""

    def f(eng, st, fat):
        q = FOUND if found else PLACE
        s = assume(st, lt(q, fat.a[3]) if found else le(q, fat.a[3]))
        if s is None:
            return []
        return [(s.copy(), "ret", (ok if found else err)(q))]

    return f


def listed(R, s, level, q):
    """[(state, key)]: the key at a place of a level's list"""
    return split(s, lambda y: y.read(R.obj, (F("archetypes"), F("sorted_mappings"), mk("i", I_(level)), F("$buf"), mk("i", q))))


def long_lists(sp, c):
    """keys are found and inserted at any place of lists of any length; where the place is, is decided by the other rules"""
    sp.rule = "long-lists"
    for cr in (c, sp.dbg):
        for size in range(1, 15) if DEEP else (1, 2, 3, 13, 14) if cr is c else (2,):
            with sp.guard("inserting"):
                sp.at(cr.fn("ArchetypeRegistry", "find_or_create_archetype"))
                inserting(sp, cr, size)
            for name in ("find_archetype", "find_archetype_mut", "find_or_create_archetype"):
                with sp.guard(name):
                    sp.at(cr.fn("ArchetypeRegistry", name))
                    finding(sp, cr, name, size)


def long_registry(sp, cr, size, found):
    w, ts, st = rworld(sp, cr, (K,) * size)
    R = Reg(w, st, [], [], na=param("archetypes", 0, MAXA))
    n = param("listed", 0, MAXA)
    st = assume(st, le(n, R.na))
    l = [vecv(mk("init", mk("listbuf", i)), n if i == size - 1 else param(f"listed:{i}", 0, MAXA)) for i in range(CAPN)]
    st.write(R.obj, (F("archetypes"), F("sorted_mappings")), mk("arr", *l))
    w.anysearch = anysearch(found)
    return w, ts, st, R, n


def inserting(sp, cr, size):
    w, ts, st, R, n = long_registry(sp, cr, size, False)
    what = "find_or_create_archetype"
    lv = size - 1
    for s0, d in w.desc_forms(ts, st):
        s0 = assume(s0, lt(R.na, I_(MAXA)))
        for s, r in foc(sp, w, s0, R.aref(), d):
            if r is None:
                sp.check(not feasible(s), what + " succeeds while the limit is not reached", facts_str(s))
                continue
            agree(sp, s, r[0], R.na, what + " returns the number of the archetype")
            agree(sp, s, r[1], R.na, what + " returns the archetype")
            holds_set(sp, w, s, R.aref(), R.na, ts, what)
            ln = s.read(R.obj, (F("archetypes"), F("sorted_mappings"), mk("i", I_(lv)), F("$len")))
            agree(sp, s, ln, add(n, I_(1)), what + " lists the new archetype")
            for s2, key in listed(R, s, lv, PLACE):
                s2 = sorted_list(s2, lv, n, R.na, d, PLACE, PLACE)
                agree(sp, s2, keyid(key), flat(select_f(d, "archetype_id")), what + " lists the new archetype where the search says", facts_str(s2))
                agree(sp, s2, select_f(key, "archetype_index"), R.na, what + " lists the new archetype's number", facts_str(s2))
            q = param("other_place", 0, MAXA)
            for cond, old in ((lt(q, PLACE), q), (AND(lt(PLACE, q), lt(q, add(n, I_(1)))), sub(q, I_(1)))):
                s1 = assume(s, cond)
                if s1 is None:
                    continue
                for s2, key in listed(R, s1, lv, q):
                    s2 = sorted_list(s2, lv, n, R.na, d, PLACE, q, sub(q, I_(1)))
                    want = mk("at", mk("init", mk("listbuf", lv)), old)
                    same_key(sp, s2, key, want, what + " keeps the order of the other listed archetypes")
            for i in range(CAPN):
                if i != lv:
                    l = s.read(R.obj, (F("archetypes"), F("sorted_mappings"), mk("i", I_(i))))
                    l0 = st.read(R.obj, (F("archetypes"), F("sorted_mappings"), mk("i", I_(i))))
                    agree(sp, s, l, l0, what + " changes only the list of the set's size", f"list {i}")


def keyid(key):
    """the number of the archetype id in an entry"""
    v = flat(select_f(key, "id"))
    if not isint(v):
        v = flat(select_f(v, "0"))
        RNG.setdefault(v, (0, (1 << 32) - 1))
    return v


def sorted_list(st, lv, n, na, d, place, *qs):
    """what is known of the entries of a list before the insertion: they are sorted by id, the new id belongs at `place`,
    and they name existing archetypes"""
    new = flat(select_f(d, "archetype_id"))
    fs, ids = [], []
    for q in qs:
        k = mk("at", mk("init", mk("listbuf", lv)), q)
        i, x = keyid(k), select_f(k, "archetype_index")
        RNG.setdefault(x, (0, 65535))
        inside = AND(ge0(q), lt(q, n))
        if st.facts.settle(inside) is not True:
            continue
        fs.append(lt(x, na))
        ids.append(i)
        before = st.facts.settle(lt(q, place))
        if before is True:
            fs.append(lt(i, new))
        elif before is False:
            fs.append(lt(new, i))
    fs += [lt(b, a) for a, b in zip(ids, ids[1:])]
    for f in fs:
        s = st.assume(f)
        if s is None:
            return st
        st = s
    return st


def same_key(sp, s, key, want, what):
    if same(s, key, want):
        sp.check(True, what)
        return
    if key.op == "struct" or key.op == "at" and key.a[0] is want.a[0] or key.op == "at":
        for f in ("id", "archetype_index"):
            a, b = (keyid(k) if f == "id" else select_f(k, f) for k in (key, want))
            if not same(s, a, b):
                agree(sp, s, a, b, what)
                return
        sp.check(True, what)
        return
    sp.undecided(what, show(key)[:300])


def finding(sp, cr, name, size):
    w, ts, st, R, n = long_registry(sp, cr, size, True)
    lv = size - 1
    for s0, d in w.desc_forms(ts, st):
        # archetypes are listed with their numbers
        idx = select_f(mk("at", mk("init", mk("listbuf", lv)), FOUND), "archetype_index")
        RNG.setdefault(idx, (0, 65535))
        s0 = assume(s0, lt(idx, R.na))
        if name.startswith("find_or"):
            outs = [(s, None if r is None else r[1], None if r is None else r[0]) for s, r in foc(sp, w, s0, R.aref(), d)]
        else:
            outs = [(s, p, None) for s, p in lookup(sp, w, s0, R.aref(), d, name.endswith("mut"))]
        for s, p, num in outs:
            if p is None:
                sp.check(not feasible(s), name + " finds what the search finds", facts_str(s))
                continue
            agree(sp, s, p, idx, name + " returns the archetype the search finds", facts_str(s))
            if num is not None:
                agree(sp, s, num, idx, name + " returns the number of the archetype the search finds")
            agree(sp, s, s.rd(R.obj), s0.rd(R.obj), name + " of a listed archetype changes nothing")
