"""The registry's operations: creating, destroying, relocating, migrating and accessing entities."""

from reg import *
from rules_arch import rows as _rows, storage, ROW, Z, dropped_once

K = None


def rworld(sp, cr, shape):
    ts = [Ty(f"{k:02}", z) for k, z in enumerate(shape)]
    w = AWorld(sp, cr, ts)
    st = S(*ordered([t.id for t in ts]))
    return w, ts, st


# ---------------------------------------------------------------- shared observations
def at_place(sp, R, st, h, want, what, vals=None, pos=None, row=None):
    """the handle is live and its components are `vals` (Ty -> value)"""
    w = R.w
    for s, loc in R.find(st, h):
        if loc is None:
            sp.check(not feasible(s), what + ": the entity is live", facts_str(s))
            continue
        r, p = loc
        if pos is not None:
            agree(sp, s, p, pos, what + ": the entity's record names its archetype")
        if row is not None:
            agree(sp, s, r, row, what + ": the entity's record names its row")
        for s2, a in R.archat(s, p):
            if a.op != "struct":
                sp.undecided(what, "archetype " + show(a)[:100])
                continue
            true(sp, s2, lt(r, select_f(a, "entity_count")), what + ": the entity's row is counted", f"row {show(r)} of {show(select_f(a,'entity_count'))}")
            for s3, x in split(s2, lambda y: entcontent(y, a, r)):
                agree(sp, s3, x, h, what + ": the row belongs to the entity")
            if vals is not None:
                for j, (t, v) in enumerate(want_cols(R, s2, a, vals, sp, what)):
                    for s3, x in split(s2, lambda y: content(w, y, a, j, t, r)):
                        agree(sp, s3, x, v, what + ": the entity's components keep their values", t.name)


def want_cols(R, st, a, vals, sp, what):
    """pairs (type, value) in column order; the archetype must have exactly these types"""
    ts = sorted(vals, key=lambda t: t.name)
    d = R.w.desc_of(ts, st.copy())
    got = select_f(a, "descriptor")
    l1, l2 = select_f(d, "components"), select_f(got, "components")
    n = select_f(got, "len")
    if not same(st, n, I_(len(ts))):
        if distinct(st, n, I_(len(ts))):
            sp.check(False, what + ": the entity has exactly its components", f"{show(n)} components instead of {len(ts)}")
        else:
            sp.undecided(what, "component count " + show(n))
        return []
    for k in range(len(ts)):
        x, y = select_i(l1, I_(k), None), select_i(l2, I_(k), None)
        if not same(st, x, y):
            agree(sp, st, select_f(x, "component_type_id"), select_f(y, "component_type_id"), what + ": the entity has exactly its components", ts[k].name)
    return [(t, vals[t]) for t in ts]


def is_dead(sp, R, st, h, what):
    for s, loc in R.find(st, h):
        if loc is not None:
            sp.check(not feasible(s), what, facts_str(s))
        else:
            sp.check(True, what)


def other_rows(sp, R, st, name, what, but=(), row=None):
    """rows of an archetype other than the given ones keep handle and components; row: an arbitrary one"""
    a, p = R.archs[name], R.pos[name]
    q = row if row is not None else param("q:" + name, 0, MAXR - 1)
    s0 = assume(st, lt(q, a.cnt), *[NOT(eqi(q, x)) for x in but])
    if s0 is None:
        return
    for s, v in R.archat(s0, p):
        if v is a.val and all(s.heap.get(mk("obj", b)) in (None, R.heap0.get(mk("obj", b)), mk("init", mk("obj", b))) for b in a.bases + [a.ents]):
            sp.check(True, what + ": other rows stay")
            continue
        if v.op != "struct":
            sp.undecided(what, "archetype " + show(v)[:100])
            continue
        true(sp, s, lt(q, select_f(v, "entity_count")), what + ": other rows stay counted", f"row {show(q)}")
        for j, t in enumerate(a.ts):
            for s2, x in split(s, lambda y: content(R.w, y, v, j, t, q)):
                agree(sp, s2, x, a.old(j, q), what + ": other rows keep their components", t.name)
        for s2, x in split(s, lambda y: entcontent(y, v, q)):
            for s3, y in split(s2, lambda z: select_i(R.heap0.get(mk("obj", a.ents), mk("init", mk("obj", a.ents))), q, z.facts)):
                agree(sp, s3, x, y, what + ": other rows keep their handles")


def rest(sp, R, st, what, touched=(), slots=()):
    """everything not involved stays: archetypes by position, entity records by slot, the archetype lists"""
    # an arbitrary other position
    z = param("other_position", 0, MAXA - 1)
    s0 = assume(st, lt(z, R.na), *[NOT(eqi(z, R.pos[n])) for n in touched])
    if s0 is not None:
        for s, v in R.archat(s0, z):
            for s2, o in split(s, lambda y: y_old(R, y, z)):
                agree(sp, s2, v, o, what + ": other archetypes stay as they are")
    i = param("other_slot", 0, MAXH - 1)
    s0 = assume(st, lt(i, R.nt), *[NOT(eqi(i, x)) for x in slots])
    if s0 is not None:
        for s, v in split(s0, lambda y: y.read(R.obj, (F("entities"), F("entities"), F("$buf"), mk("i", i)))):
            for s2, o in split(s, lambda y: select_i(R.table0, i, y.facts)):
                if same(s2, v, o):
                    sp.check(True, what + ": other entities' records stay")
                else:
                    a, b = recv(R, s2, v), recv(R, s2, o)
                    agree(sp, s2, tup(a), tup(b), what + ": other entities' records stay")


def recv(R, st, v):
    s = st.copy()
    r = cell(s, "recv", v)
    return rec(R.w.sp, R.w.cr, s, r)


def y_old(R, st, z):
    return select_i(select_f(select_f(R.areg0, "archetypes"), "$buf"), z, st.facts)


def intact(sp, R, st, what):
    """the operation changed nothing observable"""
    v = st.rd(R.obj)
    for n in R.archs:
        other_rows(sp, R, st, n, what)
        for s, a in R.archat(st, R.pos[n]):
            if a.op == "struct":
                agree(sp, s, select_f(a, "entity_count"), R.archs[n].cnt, what + ": row counts stay")
    rest(sp, R, st, what)
    e = select_f(v, "entities")
    agree(sp, st, select_f(select_f(e, "entities"), "$len"), R.nt, what + ": the entity table stays")
    if select_f(e, "next_free_slot") is not select_f(R.ereg0, "next_free_slot"):
        agree(sp, st, select_f(e, "next_free_slot"), select_f(R.ereg0, "next_free_slot"), what + ": the entity table stays")
    n = R.count(st)
    if n is not R.na:
        # a new archetype may have been prepared, but it must be empty
        for s, a in R.archat(st, R.na):
            if a.op == "struct":
                agree(sp, s, select_f(a, "entity_count"), I_(0), what + ": a prepared archetype is empty")
    for n in R.archs:
        found(sp, R, st, n, what)
    no_drop(sp, st, what)


def found(sp, R, st, name, what):
    """the archetype can still be looked up and is where it was"""
    a = R.archs[name]
    want = mk("ref", R.obj, (F("archetypes"), F("archetypes"), F("$buf"), mk("i", R.pos[name])))
    for s, v in R.lookup(st, a.desc):
        if v is None:
            sp.check(not feasible(s), what + ": existing archetypes stay findable", facts_str(s))
        else:
            same_place(sp, s, v, want, what + ": existing archetypes stay findable")


def findable(sp, R, st, ts, pos, what):
    """the archetype of the types is found at the position"""
    want = mk("ref", R.obj, (F("archetypes"), F("archetypes"), F("$buf"), mk("i", pos)))
    for s, d in R.w.desc_forms(ts, st):
        for s2, x in R.lookup(s, d):
            if x is None:
                sp.check(not feasible(s2), what + ": the entity's archetype can be found", facts_str(s2))
            else:
                same_place(sp, s2, x, want, what + ": the entity's archetype can be found")


def same_place(sp, s, v, want, what):
    if same(s, v, want):
        sp.check(True, what)
    elif v.op == "ref" and v.a[0] is want.a[0] and v.a[1] and v.a[1][-1].op == "i":
        agree(sp, s, v.a[1][-1].a[0], want.a[1][-1].a[0], what)
    else:
        sp.undecided(what, show(v))


def no_drop(sp, st, what):
    d = [e for e in st.ev if e.name in ("drop", "dropcol")]
    sp.check(not d or not feasible(st), what + ": nothing is destroyed", str(d)[:300])


def all_storage(sp, R, st, what, new=None):
    """the storage invariant of the given archetypes, and no leaked block"""
    w = R.w
    held = set()
    live = {k.a[0] for k, v in st.heap.items() if k.op == "blk" and v.a[2] is TRUE}
    todo = [(R.pos[n], R.archs[n].ts) for n in R.archs]
    if new is not None:
        todo.append((R.na, new))
    mine = []
    for p, ts in todo:
        for s, a in R.archat(st, p):
            if a.op != "struct":
                sp.undecided(what, "archetype " + show(a)[:100])
                return
            ps = {x for x in [select_f(a, "entity_associations")] + [acol(a, j) for j in range(len(ts))] if x.op in RAW}
            mine.append((s, a, ts, ps))
            held |= ps
    for s, a, ts, ps in mine:
        storage(sp, w, s, a, ts, what, blocks=held - ps)


# ---------------------------------------------------------------- create_entity
def gvals(w, ts):
    return {t: w.value(t) for t in ts}


def create(sp, c):
    sp.rule = "create-entity"
    shapes = ((K,), (K, K), (Z, K), (Z,)) + (((K, Z), (Z, Z), (K, K, K)) if DEEP else ())
    for cr in (c, sp.dbg):
        f = cr.fn("Registry", "create_entity")
        for shape in shapes if cr is c or DEEP else shapes[:2]:
            for dest in ("exists", "new", "neighbour", "first"):
                for table in ("free", "room", "full"):
                    with sp.guard(f"create_entity, archetype {dest}, table {table}"):
                        sp.at(f)
                        one_create(sp, cr, shape, dest, table)


def refused(sp, c):
    sp.rule = "create-refused"
    for cr in (c, sp.dbg):
        with sp.guard("limits"):
            sp.at(cr.fn("Registry", "create_entity"))
            create_limits(sp, cr)


def one_create(sp, cr, shape, dest, table):
    extra = shape + (K,)
    w, ts, st = rworld(sp, cr, extra)
    g, other = ts[:-1], ts[1:]
    archs = []
    if dest in ("exists",):
        archs.append(("dest", g, {}))
    if dest in ("neighbour",):
        archs.append(("near", other, {}))
    if dest in ("new", "exists"):
        archs.append(("far", ts, {}))
    R = Reg(w, st, archs, [], table)
    bind = w.gbind(g, st)
    vals = gvals(w, g)
    value = tup(vals[t] for t in g)
    if dest == "exists":
        st = assume(st, lt(R.archs["dest"].cnt, I_(MAXR)))
    else:
        st = assume(st, lt(R.na, I_(MAXA)))
    for s, v in returns(sp, w.run("Registry", "create_entity", st, [R.ref, value], bind)):
        created(sp, R, s, v, value, vals, g, dest, table)


def created(sp, R, s, v, value, vals, g, dest, table):
    what = "create_entity"
    if v.a[2] == "Err":
        sp.check(table == "full" or not feasible(s), "create_entity succeeds while there is room", f"table {table}; {facts_str(s)}")
        agree(sp, s, v.a[4][0], value, "a failed create_entity hands the components back")
        intact(sp, R, s, "a failed create_entity")
        return
    if table == "full":
        sp.check(not feasible(s), "create_entity fails when the entity limit is reached", facts_str(s))
        return
    e = v.a[4][0]
    known = dest == "exists"
    pos = R.pos["dest"] if known else R.na
    row = R.archs["dest"].cnt if known else I_(0)
    at_place(sp, R, s, e, g, what, vals, pos, row)
    for s2, a in R.archat(s, pos):
        agree(sp, s2, select_f(a, "entity_count"), add(row, I_(1)), what + ": exactly one row is added")
    agree(sp, s, R.count(s), R.na if known else add(R.na, I_(1)), what + ": an archetype is added exactly when the combination is new")
    for n in R.archs:
        other_rows(sp, R, s, n, what)
        found(sp, R, s, n, what)
    findable(sp, R, s, g, pos, what)
    slot = slot_of(R, s, e)
    rest(sp, R, s, what, touched=("dest",) if known else (), slots=(slot,))
    all_storage(sp, R, s, what, None if known else g)
    no_drop(sp, s, what)


def slot_of(R, st, h):
    s = st.copy()
    q = cell(s, "handle", h)
    return R.w.one("Entity", "index", s, [q])


def create_limits(sp, cr):
    # no further archetype can be created
    w, ts, st = rworld(sp, cr, (K, K))
    R = Reg(w, st, [("near", [ts[1]], {})], [], "room", na=I_(MAXA))
    bind = w.gbind([ts[0]], st)
    value = tup([w.value(ts[0])])
    for s, v in returns(sp, w.run("Registry", "create_entity", st, [R.ref, value], bind)):
        if v.a[2] == "Ok":
            sp.check(not feasible(s), "no archetype is created beyond the limit", facts_str(s))
        else:
            agree(sp, s, v.a[4][0], value, "a failed create_entity hands the components back")
            intact(sp, R, s, "a failed create_entity")
    # the archetype is full
    w, ts, st = rworld(sp, cr, (K, K))
    R = Reg(w, st, [("dest", ts, {"cap": I_(MAXR), "cnt": I_(MAXR)})], [], "room")
    bind = w.gbind(ts, st)
    value = tup([w.value(t) for t in ts])
    for s, v in returns(sp, w.run("Registry", "create_entity", st, [R.ref, value], bind)):
        if v.a[2] == "Ok":
            sp.check(not feasible(s), "no row is created beyond the limit", facts_str(s))
        else:
            agree(sp, s, v.a[4][0], value, "a failed create_entity hands the components back")
            intact(sp, R, s, "a failed create_entity")
    # an invalid group
    w, ts, st = rworld(sp, cr, (K, K))
    R = Reg(w, st, [("near", ts, {})], [], "room")
    bind = w.gbind(None, st)
    value = tup([w.value(ts[0]), w.value(ts[0], "again")])
    for s, v in returns(sp, w.run("Registry", "create_entity", st, [R.ref, value], bind)):
        if v.a[2] == "Ok":
            sp.check(not feasible(s), "an invalid group creates no entity", facts_str(s))
        else:
            agree(sp, s, v.a[4][0], value, "create_entity hands an invalid group back")
            intact(sp, R, s, "a refused create_entity")


# ---------------------------------------------------------------- removing entities
class Case:
    """an entity e in archetype A, another one f in A's last row unless e is last; further archetypes as wanted"""

    def __init__(self, sp, cr, shape, last, types, others, table="any", head=(), dest=None):
        self.w, self.all, st = rworld(sp, cr, shape)
        w = self.w
        ts = [self.all[k] for k in types]
        cnt = param("len:A", 1, MAXR)
        e = sub(cnt, I_(1)) if last else param("row:e", 0, MAXR - 1)
        if not last:
            st = assume(st, lt(e, cnt), NOT(eqi(e, sub(cnt, I_(1)))))
        archs = [("A", ts, {"cnt": cnt})] + [(n, [self.all[k] for k in l], o) for n, l, o in others]
        ents = [("e", "A", e)] + ([] if last else [("f", "A", sub(cnt, I_(1)))])
        self.R = Reg(w, st, archs, ents, table)
        self.st, self.ts, self.e, self.cnt, self.last = st, ts, e, cnt, last
        self.names = [x[0] for x in archs]

    def count(self, st, n):
        r = self.R.archat(st, self.R.pos[n])
        if len(r) != 1:
            raise Unsupported("row count")
        return select_f(r[0][1], "entity_count")


def oldvals(R, n, row):
    a = R.archs[n]
    return {t: a.old(j, row) for j, t in enumerate(a.ts)}


def left_behind(sp, C, s, what):
    """after e left its archetype: the last row moved up, the rest of A and of the registry stay"""
    R = C.R
    last = sub(C.cnt, I_(1))
    for s2, a in R.archat(s, R.pos["A"]):
        agree(sp, s2, select_f(a, "entity_count"), last, what + ": exactly one row is removed")
    if not C.last:
        at_place(sp, R, s, R.h["f"], None, what + " (the moved entity)", oldvals(R, "A", last), R.pos["A"], C.e)
    other_rows(sp, R, s, "A", what, but=(C.e, last))
    for n in C.names:
        found(sp, R, s, n, what)
    agree(sp, s, select_f(select_f(select_f(s.rd(R.obj), "entities"), "entities"), "$len"), R.nt, what + ": the entity table keeps its size")


def destroy(sp, c):
    sp.rule = "destroy-entity"
    shapes = ((K,), (K, K), (Z, K), (Z,), (K, K, K)) + (((K, Z), (Z, Z), (K, Z, K), (K, K, K, K)) if DEEP else ())
    for cr in (c, sp.dbg):
        f = cr.fn("Registry", "destroy_entity")
        for shape in shapes if cr is c or DEEP else shapes[:2]:
            for last in (True, False):
                with sp.guard("destroy_entity of a live entity"):
                    sp.at(f)
                    one_destroy(sp, cr, shape, last)
        with sp.guard("destroy_entity of a dead entity"):
            sp.at(f)
            for C, h, s in dead_handles(sp, cr):
                for s2, v in returns(sp, C.w.run("Registry", "destroy_entity", s, [C.R.ref, h])):
                    agree(sp, s2, v, FALSE, "destroy_entity of a dead handle reports failure")
                    intact(sp, C.R, s2, "destroy_entity of a dead handle")


def one_destroy(sp, cr, shape, last):
    C = Case(sp, cr, shape + (K,), last, range(len(shape)), [("B", [len(shape)], {})])
    w, R = C.w, C.R
    what = "destroy_entity"
    for s, v in returns(sp, w.run("Registry", "destroy_entity", C.st, [R.ref, R.h["e"]])):
        agree(sp, s, v, TRUE, what + " of a live entity succeeds")
        is_dead(sp, R, s, R.h["e"], what + ": the entity is dead afterwards")
        left_behind(sp, C, s, what)
        other_rows(sp, R, s, "B", what)
        rest(sp, R, s, what, touched=("A",), slots=[R.idx[n] for n in R.idx])
        agree(sp, s, R.count(s), R.na, what + ": no archetype appears or disappears")
        all_storage(sp, R, s, what)
        dropped_once(sp, w, R.archs["A"], s, None, C.e, what, owner=lambda es: C.count(es, "A"))
        for e in s.ev:
            if e.name in ("drop", "dropcol"):
                # what a destructor that panics leaves behind
                es = St(e.heap, s.facts)
                is_dead(sp, R, es, R.h["e"], what + ": the entity is dead before its components are destroyed")
                left_behind(sp, C, es, what + ", when a destructor runs")


def dead_handles(sp, cr, shape=(K, K), types=(0, 1), others=(), table="free"):
    """handles that are not live: an outdated version, a slot that was never used, a free slot"""
    for kind in ("outdated", "never used", "free"):
        C = Case(sp, cr, shape, True, types, others, table)
        w, R, st = C.w, C.R, C.st
        if kind == "outdated":
            v = param("other_version", 0, 255)
            st = assume(st, NOT(eqi(v, R.ver["e"])))
            h = w.one("Entity", "new_unchecked", S(), [R.idx["e"], v])
        elif kind == "never used":
            i = param("other_index", 0, MAXH)
            st = assume(st, le(R.nt, i))
            h = w.one("Entity", "new_unchecked", S(), [i, param("other_version", 0, 255)])
        else:
            h = w.one("Entity", "new_unchecked", S(), [R.head, param("other_version", 0, 255)])
        yield C, h, st


def remove(sp, c):
    sp.rule = "remove-entity"
    shapes = ((K,), (K, K), (Z, K), (Z,), (K, K, K)) + (((K, Z), (Z, Z), (K, Z, K), (K, K, K, K)) if DEEP else ())
    for cr in (c, sp.dbg):
        f = cr.fn("Registry", "remove_entity")
        for shape in shapes if cr is c or DEEP else shapes[:2]:
            for last in (True, False):
                with sp.guard("remove_entity of a live entity"):
                    sp.at(f)
                    one_remove(sp, cr, shape, last)
        with sp.guard("remove_entity of a dead entity"):
            sp.at(f)
            for C, h, s in dead_handles(sp, cr):
                bind = C.w.gbind(C.ts, s)
                for s2, v in returns(sp, C.w.run("Registry", "remove_entity", s, [C.R.ref, h], bind)):
                    agree(sp, s2, v, none(), "remove_entity of a dead handle reports failure")
                    intact(sp, C.R, s2, "remove_entity of a dead handle")
        with sp.guard("remove_entity with other components"):
            sp.at(f)
            for have, want in (((0,), (1,)), ((0, 1), (0,)), ((0, 1), (1,)), ((0,), (0, 1)), ((0, 1), (0, 2)), ((0, 1), (1, 2)), ((0, 1), None), ((0, 1, 2), (0, 2)), ((0, 2), (0, 1, 2))):
                C = Case(sp, cr, (K, K, K), False, have, [])
                s = C.st.copy()
                bind = C.w.gbind(None if want is None else [C.all[k] for k in want], s)
                for s2, v in returns(sp, C.w.run("Registry", "remove_entity", s, [C.R.ref, C.R.h["e"]], bind)):
                    agree(sp, s2, v, none(), "remove_entity refuses other than exactly the entity's components", f"entity has {have}, asked for {want}")
                    intact(sp, C.R, s2, "a refused remove_entity")


def one_remove(sp, cr, shape, last):
    C = Case(sp, cr, shape + (K,), last, range(len(shape)), [("B", [len(shape)], {})])
    w, R = C.w, C.R
    what = "remove_entity"
    st = C.st.copy()
    bind = w.gbind(C.ts, st)
    for s, v in returns(sp, w.run("Registry", "remove_entity", st, [R.ref, R.h["e"]], bind)):
        if v.op != "variant" or v.a[2] != "Some":
            sp.check(v.op == "variant" and not feasible(s), what + " of a live entity succeeds", facts_str(s))
            continue
        for j, t in enumerate(C.ts):
            agree(sp, s, select_f(v.a[4][0], str(j)), R.old("A", j, C.e), what + " returns the entity's components", t.name)
        is_dead(sp, R, s, R.h["e"], what + ": the entity is dead afterwards")
        left_behind(sp, C, s, what)
        other_rows(sp, R, s, "B", what)
        rest(sp, R, s, what, touched=("A",), slots=[R.idx[n] for n in R.idx])
        agree(sp, s, R.count(s), R.na, what + ": no archetype appears or disappears")
        all_storage(sp, R, s, what)
        no_drop(sp, s, what)


# ---------------------------------------------------------------- adding and removing components
def adding(sp, c):
    migrate(sp, c, ("add",))


def removing(sp, c):
    migrate(sp, c, ("remove",))


def migrate(sp, c, which=("add", "remove")):
    for which in which:
        sp.rule = which + "-component"
        f0 = which + "_component"
        for cr in (c, sp.dbg):
            f = cr.fn("Registry", f0)
            # component sets as subsets of the types, the moved one separately
            cases = [((K, K), (0,), 1), ((K, K), (1,), 0)]
            if cr is c:
                cases += [((K, K, K), (0, 2), 1), ((K, K, K), (0, 1), 2), ((K, K, K), (1, 2), 0), ((Z, K), (0,), 1), ((Z, K), (1,), 0), ((K, Z), (1,), 0), ((K, Z, K), (0, 2), 1), ((Z, Z), (1,), 0)]
            for shape, small, t in cases:
                for dest in ("exists", "new", "neighbour"):
                    for last in (True, False):
                        with sp.guard(f"{f0}, destination {dest}"):
                            sp.at(f)
                            one_migrate(sp, cr, which, shape, small, t, dest, last)
            dead_migration(sp, cr, which)
            with sp.guard(f0 + " of a wrong component"):
                sp.at(f)
                for have in ((0,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
                    for t in range(3):
                        if (t in have) != (which == "add"):
                            continue
                        C = Case(sp, cr, (K, K, K), False, have, [])
                        failed_migration(sp, C, C.st, which, C.R.h["e"], t, f"{f0} of a component the entity " + ("has" if which == "add" else "lacks"))
                if which == "remove":
                    C = Case(sp, cr, (K, K, K), False, (1,), [("B", (0, 1), {})])
                    failed_migration(sp, C, C.st, which, C.R.h["e"], 1, f0 + " of the only component")
            with sp.guard(f0 + " at the archetype limit"):
                sp.at(f)
                C = Case(sp, cr, (K, K, K), False, (0,) if which == "add" else (0, 1), [("B", (1, 2), {})])
                s = assume(C.st, eqi(C.R.na, I_(MAXA)))
                failed_migration(sp, C, s, which, C.R.h["e"], 1, f0 + " at the archetype limit")
            if which == "add":
                with sp.guard(f0 + " to the maximum number of components"):
                    sp.at(f)
                    many_components(sp, cr)


def dead_migration(sp, cr, which):
    f0 = which + "_component"
    with sp.guard(f0 + " of a dead entity"):
        sp.at(cr.fn("Registry", f0))
        for C, h, s in dead_handles(sp, cr, (K, K, K), (0, 1), [("B", (0, 1, 2), {}), ("D", (0,), {})]):
            failed_migration(sp, C, s, which, h, 2 if which == "add" else 1, f0 + " of a dead entity")


def dead(sp, c):
    """operations on handles that are not live (those of destroy_entity and remove_entity are in their rules)"""
    for cr in (c, sp.dbg):
        sp.rule = "dead-handles"
        for which in ("add", "remove"):
            dead_migration(sp, cr, which)
        for name in SINGLES + GROUPS:
            dead_access(sp, cr, name)


def many_components(sp, cr):
    C = Case(sp, cr, (K,) * 15, True, range(1, 15), [])
    failed_migration(sp, C, C.st, "add", C.R.h["e"], 0, "add_component to 14 components")


def one_migrate(sp, cr, which, shape, small, t, dest, last):
    big = tuple(sorted(small + (t,)))
    src, dst = (small, big) if which == "add" else (big, small)
    n = len(shape)
    others = []
    shape = shape + (K,)
    if dest == "exists":
        others = [("B", dst, {"cnt": param("len:B", 0, MAXR - 1)})]
    elif dest == "neighbour":
        l = tuple(sorted((set(dst) - {dst[0]}) | {n}))
        others = [("N", l, {})]
    C = Case(sp, cr, shape, last, src, others)
    w, R, ty = C.w, C.R, C.all[t]
    st = assume(C.st, lt(R.na, I_(MAXA))) if dest != "exists" else C.st.copy()
    what = which + "_component"
    new = w.value(ty)
    # as many rows as there are entities at most
    if dest == "exists":
        st = assume(st, le(add(C.cnt, R.archs["B"].cnt), I_(MAXR)))
    args = [R.ref, R.h["e"]] + ([new] if which == "add" else [])
    vals = oldvals(R, "A", C.e)
    gone = vals.pop(ty, None)
    if which == "add":
        vals[ty] = new
    pos = R.pos["B"] if dest == "exists" else R.na
    row = R.archs["B"].cnt if dest == "exists" else I_(0)
    for s, v in returns(sp, w.run("Registry", what, st, args, w.cbind(ty))):
        if v.op != "variant" or v.a[2] != "Ok":
            sp.check(v.op == "variant" and not feasible(s), what + " succeeds", f"destination {dest}: {show(v)}; {facts_str(s)}")
            continue
        if which == "remove":
            agree(sp, s, v.a[4][0], gone, what + " returns the removed component")
        at_place(sp, R, s, R.h["e"], None, what, vals, pos, row)
        for s2, a in R.archat(s, pos):
            agree(sp, s2, select_f(a, "entity_count"), add(row, I_(1)), what + ": the destination gets exactly one more row")
        left_behind(sp, C, s, what)
        for nm in C.names:
            if nm != "A":
                other_rows(sp, R, s, nm, what)
        findable(sp, R, s, [C.all[k] for k in dst], pos, what)
        agree(sp, s, R.count(s), R.na if dest == "exists" else add(R.na, I_(1)), what + ": an archetype is added exactly when the combination is new")
        rest(sp, R, s, what, touched=("A", "B") if dest == "exists" else ("A",), slots=[R.idx[x] for x in R.idx])
        all_storage(sp, R, s, what, None if dest == "exists" else [C.all[k] for k in dst])
        no_drop(sp, s, what)


def failed_migration(sp, C, st, which, h, t, what):
    w, R, ty = C.w, C.R, C.all[t]
    new = w.value(ty)
    args = [R.ref, h] + ([new] if which == "add" else [])
    for s, v in returns(sp, w.run("Registry", which + "_component", st, args, w.cbind(ty))):
        if v.op != "variant" or v.a[2] != "Err":
            sp.check(v.op == "variant" and not feasible(s), what + " fails", f"{show(v)}; {facts_str(s)}")
            continue
        if which == "add":
            agree(sp, s, v.a[4][0], new, what + " hands the component back")
        intact(sp, R, s, what)


# ---------------------------------------------------------------- access
SINGLES = ("has_component", "get_component", "get_component_mut")
GROUPS = ("has_components", "get_components", "get_components_mut")


def dead_access(sp, cr, name):
    with sp.guard(name + " of a dead entity"):
        sp.at(cr.fn("Registry", name))
        for C, h, s in dead_handles(sp, cr):
            bind = C.w.cbind(C.ts[0]) if name in SINGLES else C.w.gbind(C.ts, s)
            for s2, v in returns(sp, C.w.run("Registry", name, s, [C.R.ref, h], bind)):
                agree(sp, s2, v, FALSE if name.startswith("has") else none(), name + " of a dead handle reports absence")
                unread(sp, C.R, s2, name)


def access(sp, c):
    sp.rule = "registry-access"
    singles, groups = SINGLES, GROUPS
    for cr in (c, sp.dbg):
        for name in singles + groups:
            f = cr.fn("Registry", name)
            one = name in singles
            with sp.guard(name):
                sp.at(f)
                for shape, have, want in (
                    ((K, K, K), (0, 1, 2), (0,)), ((K, K, K), (0, 1, 2), (1,)), ((K, K, K), (0, 1, 2), (2,)), ((K, K), (1,), (1,)),
                    ((K, Z, K), (0, 1, 2), (1,)), ((K, Z, K), (1, 2), (2,)), ((K, K, K), (0, 2), (1,)), ((K, K, K), (1, 2), (0,)), ((K, K, K), (0, 1), (2,)),
                    ((K, K, K), (0, 1, 2), (0, 2)), ((K, K, K), (0, 1, 2), (0, 1, 2)), ((K, K, K), (1, 2), (1, 2)), ((K, Z, K), (0, 1, 2), (1, 2)),
                    ((K, K, K), (0, 2), (0, 1)), ((K, K, K), (0, 2), (0, 1, 2)), ((K, K, K), (0, 1), (1, 2)), ((K, K, K), (1,), (0, 2)), ((K, K), (0, 1), None),
                ):
                    if one and (want is None or len(want) != 1):
                        continue
                    C = Case(sp, cr, shape, False, have, [])
                    st = C.st.copy()
                    R, w = C.R, C.w
                    ts = None if want is None else [C.all[k] for k in want]
                    bind = w.cbind(ts[0]) if one else w.gbind(ts, st)
                    present = want is not None and set(want) <= set(have)
                    for s, v in returns(sp, w.run("Registry", name, st, [R.ref, R.h["e"]], bind)):
                        what = name + (" of present components" if present else " of absent components" if want is not None else " of an invalid group")
                        if name.startswith("has"):
                            agree(sp, s, v, B(present), what, f"entity has {have}, asked for {want}")
                        elif not present:
                            agree(sp, s, v, none(), what, f"entity has {have}, asked for {want}")
                        elif v.op != "variant" or v.a[2] != "Some":
                            sp.check(v.op == "variant" and not feasible(s), what, f"entity has {have}, asked for {want}: {show(v)}")
                        else:
                            for k, t in enumerate(ts):
                                p = v.a[4][0] if one else select_f(v.a[4][0], str(k))
                                column_ref(sp, R, s, p, have.index(want[k]), t, C.e, what)
                        unread(sp, R, s, name)
            dead_access(sp, cr, name)


def column_ref(sp, R, s, p, j, t, row, what):
    """p refers to the row's element of column j of archetype A"""
    b = R.archs["A"].bases[j]
    if t.size is I_(0):
        if p is b or p.op == "ref" and p.a[0] is mk("obj", b):
            sp.check(True, what + " refers to the component")
        elif ptrkind(p) or p.op == "ref":
            sp.check(not feasible(s), what + " refers to the component", f"{show(p)} instead of {show(b)}")
        else:
            sp.undecided(what, show(p))
        return
    want = poff(b, mul(row, t.size))
    if p.op == "ref":
        w = mk("obj", b)
        if p.a[0] is not w:
            sp.check(not feasible(s), what + " refers to the component", f"{show(p)} instead of {show(want)}")
        elif len(p.a[1]) == 1 and p.a[1][0].op == "i":
            agree(sp, s, p.a[1][0].a[0], row, what + " refers to the component")
        else:
            sp.undecided(what, show(p))
    else:
        agree(sp, s, p, want, what + " refers to the component")


def unread(sp, R, s, what):
    """nothing at all is written, allocated or destroyed"""
    for o, v in s.heap.items():
        if o.op in ("obj", "blk") and o in R.heap0:
            agree(sp, s, v, R.heap0[o], what + " changes nothing", show(o))
        elif o.op == "obj" and o.a[0] in R.mine:
            agree(sp, s, v, mk("init", o), what + " changes nothing", show(o))
    bad = [e for e in s.ev if e.name in ("drop", "dropcol", "alloc", "realloc", "dealloc")]
    sp.check(not bad or not feasible(s), what + " changes nothing", str(bad)[:200])
