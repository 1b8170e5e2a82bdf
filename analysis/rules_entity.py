"""Handles, records, index newtypes and the entity registry."""

from arch import *

MAXH = (1 << 24) - 1


# ---------------------------------------------------------------- E1 handles
def handles(sp, c):
    sp.rule = "handle-packing"
    i, v = param("index", 0, MAXH), param("version", 0, 255)
    raw = param("raw", 0, (1 << 32) - 1)
    fnew = c.fn("Entity", "new_unchecked")
    sp.at(fnew)
    st = S()
    e = one(sp, c, fnew, st, [i, v])
    r = cell(st, "e", e)
    agree(sp, st, sp.obs1(c, "Entity", "index", st, [r]), i, "index(new(index, version)) == index")
    agree(sp, st, sp.obs1(c, "Entity", "version", st, [r]), v, "version(new(index, version)) == version")
    # every raw value is reproduced from its parts
    ff = c.fn("Entity", "from_raw")
    st = S()
    e = one(sp, c, ff, st, [raw])
    r = cell(st, "e", e)
    sp.at(c.fn("Entity", "raw"))
    agree(sp, st, sp.obs1(c, "Entity", "raw", st, [r]), raw, "raw(from_raw(x)) == x")
    ix, vx = sp.obs1(c, "Entity", "index", st, [r]), sp.obs1(c, "Entity", "version", st, [r])
    e2 = one(sp, c, fnew, st, [ix, vx])
    sp.at(fnew)
    agree(sp, st, e2, e, "new(index(e), version(e)) == e", show(e2) + " vs " + show(e))
    true(sp, st, AND(ge0(ix), le(ix, I(MAXH))), "index() has 24 bits", show(ix))
    true(sp, st, AND(ge0(vx), le(vx, I(255))), "version() has 8 bits", show(vx))
    # setters change their own field only
    for name, val, other in (("set_index", i, "version"), ("set_version", v, "index")):
        f = c.fn("Entity", name)
        sp.at(f)
        for cr in (c, sp.dbg):
            st = S()
            r = cell(st, "e", e)
            ov = sp.obs1(cr, "Entity", other, st, [r])
            outs = sp.run(cr, cr.fn("Entity", name), st, [r, val])
            for s, _ in rets(sp, outs, name + " never panics on a valid argument"):
                g = sp.obs1(cr, "Entity", name[4:], s, [r])
                agree(sp, s, g, val, name + " stores its argument", show(g))
                g = sp.obs1(cr, "Entity", other, s, [r])
                agree(sp, s, g, ov, name + f" keeps the {other}", show(g))
    # the invalid handle
    st = S()
    inv = one(sp, c, c.fn("Entity", "invalid"), st, [])
    r = cell(st, "inv", inv)
    sp.at(c.fn("Entity", "is_valid"))
    true(sp, st, NOT(sp.obs1(c, "Entity", "is_valid", st, [r])), "the invalid handle is not valid")
    ri = sp.obs1(c, "Entity", "raw", st, [r])
    agree(sp, st, ri, I((1 << 32) - 1), "the invalid handle is the all-ones handle", show(ri))
    ii = sp.obs1(c, "Entity", "index", st, [r])
    st = S()
    st = st.assume(NOT(eqi(raw, ri)))
    r = cell(st, "e", e)
    true(sp, st, sp.obs1(c, "Entity", "is_valid", st, [r]), "every other handle is valid")
    sp.at(c.fn("Entity", "default", "Default"))
    d = one(sp, c, sp.cur, S(), [])
    agree(sp, S(), d, inv, "the default handle is the invalid one")
    # equality is equality of both parts
    sp.at(c.fn("Entity", "eq", "PartialEq"))
    raw2 = param("raw2", 0, (1 << 32) - 1)
    st = S()
    r = cell(st, "e", e)
    r2 = cell(st, "e2", one(sp, c, ff, st, [raw2]))
    for cond, want in ((eqi(raw, raw2), True), (NOT(eqi(raw, raw2)), False)):
        s = st.assume(cond)
        observes(sp, c, "Entity", "eq", s, [r, r2], want, trait="PartialEq", what=f"handles compare equal exactly when identical ({want})")
    # a live entity never has the invalid handle: the index is out of the table
    fm = c.p.insts.get(c.fn_const("EntityRegistry", "MAX_ENTITY_COUNT"))
    mx = sp.engine(c).evalconst(S(), fm["inst"])
    true(sp, S(), le(mx, ii), "the index of the invalid handle is beyond the entity limit", show(mx))
    agree(sp, S(), mx, I(MAXH), "the entity limit is 2^24 - 1", show(mx))


def one(sp, c, f, st, args, **kw):
    outs = sp.run(c, f, st, args, **kw)
    if len(outs) != 1 or outs[0][1] != "ret":
        raise Unsupported(f"{f['path']}: {len(outs)} outcomes")
    st.heap.update({k: v for k, v in outs[0][0].heap.items() if k.op == "obj"})
    return outs[0][2]


# ---------------------------------------------------------------- E2 records
FIELDS = ("version", "index_in_archetype", "archetype_index")


def rec(sp, c, st, r):
    """the record's fields as plain integers"""
    v = sp.obs1(c, "EntityEntry", "version", st, [r])
    i = sp.obs1(c, "EntityEntry", "index_in_archetype", st, [r])
    i = idxval(sp, c, st, i)
    a = sp.obs1(c, "EntityEntry", "archetype_index", st, [r])
    return v, i, a


def idxval(sp, c, st, i):
    s = st.copy()
    r = cell(s, "idx", i)
    return sp.obs1(c, "IndexInArchetype", "value", s, [r])


def mkidx(sp, c, v):
    return one(sp, c, c.fn("IndexInArchetype", "new_unchecked"), S(), [v])


def mkarch(sp, c, a):
    """a valid archetype index; needs a in range"""
    outs = [v for _, k, v in sp.run(c, c.fn("ArchetypeIndex", "new"), S(), [a]) if k == "ret" and v.a[2] == "Some"]
    if len(outs) != 1:
        raise Unsupported("archetype index construction")
    return outs[0].a[4][0]


def typed_entry(c, st, v):
    """bytes of an arbitrary record"""
    for i in range(6):
        t = mk("at", select_f(v, "values"), I(i))
        RNG[t] = (0, 255)


def records(sp, c):
    sp.rule = "record-fields"
    i, v, a = param("index", 0, MAXH), param("version", 0, 255), param("archetype", 0, 65535)
    e0 = param("record")
    typed_entry(c, None, e0)
    idx = mkidx(sp, c, i)
    for cr in (c, sp.dbg):
        st = S()
        r = cell(st, "record", e0)
        old = rec(sp, cr, st, r)
        for n, (name, arg, val) in enumerate(
            (("set_version", v, v), ("set_index_in_archetype", idx, i), ("set_archetype_index", a, a))
        ):
            f = cr.fn("EntityEntry", name)
            sp.at(f)
            outs = sp.run(cr, f, st, [r, arg])
            for s, _ in rets(sp, outs, name + " never panics"):
                new = rec(sp, cr, s, r)
                for m in range(3):
                    if m == n:
                        agree(sp, s, new[m], val, f"{FIELDS[m]} reads back what {name} stored", show(new[m]))
                    else:
                        agree(sp, s, new[m], old[m], f"{name} leaves {FIELDS[m]} alone", show(new[m]))
        # invalidate
        f = cr.fn("EntityEntry", "invalidate")
        sp.at(f)
        nf = param("next_free", 0, MAXH)
        for s, _ in rets(sp, sp.run(cr, f, st, [r, nf]), "invalidate never panics"):
            new = rec(sp, cr, s, r)
            agree(sp, s, new[0], old[0], "invalidate leaves the version alone", show(new[0]))
            agree(sp, s, new[1], nf, "invalidate stores the next free slot", show(new[1]))
            true(sp, s, NOT(sp.obs1(cr, "EntityEntry", "is_valid", s, [r])), "an invalidated record is not valid")
        # validity is exactly: archetype index is not the reserved one
        sp.at(cr.fn("EntityEntry", "is_valid"))
        for cond, want in ((eqi(old[2], I(65535)), False), (NOT(eqi(old[2], I(65535))), True)):
            s = st.assume(cond)
            if s is None:
                continue
            observes(sp, cr, "EntityEntry", "is_valid", s, [r], want, f"record validity follows the archetype index ({want})")
    # record clone keeps the fields
    f = c.fn("EntityEntry", "clone", "Clone")
    sp.at(f)
    st = S()
    r = cell(st, "record", e0)
    v2 = one(sp, c, f, st, [r])
    r2 = cell(st, "record2", v2)
    for x, y in zip(rec(sp, c, st, r), rec(sp, c, st, r2)):
        agree(sp, st, y, x, "a cloned record has the same fields")


# ---------------------------------------------------------------- E3 index types
def indices(sp, c):
    sp.rule = "index-range"
    for ty, inv, acc, bits in (("IndexInArchetype", MAXH, "value", 32), ("ArchetypeIndex", 65535, "value", 16)):
        f = c.fn(ty, "new")
        sp.at(f)
        x = param("x", 0, (1 << bits) - 1)
        outs = sp.run(c, f, S(), [x])
        for s, v in rets(sp, outs, f"{ty}::new never panics"):
            if v.op != "variant":
                raise Unsupported("optional index " + show(v))
            if v.a[2] == "Some":
                true(sp, s, lt(x, I(inv)), f"{ty}::new accepts only values below {inv}", facts_str(s))
                r = cell(s, "ix", v.a[4][0])
                agree(sp, s, sp.obs1(c, ty, acc, s, [r]), x, f"{ty}::value returns the constructed value")
            else:
                true(sp, s, le(I(inv), x), f"{ty}::new rejects only values from {inv} on", facts_str(s))
        f = c.fn(ty, "new_unchecked") if c.has(ty, "new_unchecked") else None
        if f:
            sp.at(f)
            st = S()
            r = cell(st, "ix", one(sp, c, f, st, [x]))
            agree(sp, st, sp.obs1(c, ty, acc, st, [r]), x, f"{ty}: new_unchecked(x).value() == x")
    # byte form
    i = param("index", 0, MAXH)
    st = S()
    r = cell(st, "ix", mkidx(sp, c, i))
    f = c.fn("IndexInArchetype", "to_bytes")
    sp.at(f)
    b = sp.obs1(c, "IndexInArchetype", "to_bytes", st, [r])
    for cr in (c, sp.dbg):
        outs = sp.run(cr, cr.fn("IndexInArchetype", "from_bytes"), st, [b])
        for s, v in rets(sp, outs, "from_bytes never panics"):
            agree(sp, s, idxval(sp, cr, s, v), i, "from_bytes(to_bytes(x)) == x for 24 bit x")
    sp.at(c.fn("IndexInArchetype", "eq", "PartialEq"))
    j = param("index2", 0, MAXH)
    r2 = cell(st, "ix2", mkidx(sp, c, j))
    for cond, want in ((eqi(i, j), True), (NOT(eqi(i, j)), False)):
        s = st.assume(cond)
        observes(sp, c, "IndexInArchetype", "eq", s, [r, r2], want, trait="PartialEq", what="indices compare by value")


# ---------------------------------------------------------------- E4 the entity table
NONE_SLOT = MAXH
REG = param("registry")


def fld(v, *names):
    for n in names:
        v = select_f(v, n)
    return v


LEN = fld(REG, "entities", "$len")
BUF = fld(REG, "entities", "$buf")
HEAD = fld(REG, "next_free_slot")
RNG[LEN] = (0, (1 << 63) - 1)
RNG[HEAD] = (0, MAXH)


def slot(i):
    e = mk("at", BUF, i)
    typed_entry(None, None, e)
    return e


def table(st, cr):
    """a reference to a table in an arbitrary state; only known fields have a known meaning"""
    fields = {f[0] for f in cr.p.adts["crate::entity_registry::EntityRegistry"]["variants"][0]["fields"]}
    if fields != {"entities", "next_free_slot"}:
        raise Unsupported(f"the entity table has the fields {sorted(fields)}")
    return cell(st, "registry", REG)


def table_inv(sp, c, st, r):
    """the states the table can be in: size within the limit, free list head absent or a dead slot"""
    out = []
    st = assume(st, le(LEN, I(MAXH)), ge0(HEAD))
    a = assume(st, eqi(HEAD, I(NONE_SLOT)))
    out.append(("no free slot", a))
    b = assume(st, lt(HEAD, LEN))
    h = slot(HEAD)
    rr = cell(b, "head", h)
    v, ix, ar = rec(sp, c, b, rr)
    # a dead slot is marked as such and links to a slot index or the end marker
    b = assume(b, NOT(sp.obs1(c, "EntityEntry", "is_valid", b, [rr])))
    out.append(("free slot", b))
    return out


def lookup(sp, c, st, r, h, name="entity_entry"):
    """[(state, record reference or None)]"""
    res = []
    hv = handle(sp, c, h)
    for s, v in rets(sp, sp.run(c, c.fn("EntityRegistry", name), st, [r, hv]), f"{name} never panics"):
        if v.op != "variant":
            raise Unsupported(name + " returns " + show(v))
        res.append((s, v.a[4][0] if v.a[2] == "Some" else None))
    return res


def handle(sp, c, raw):
    return one(sp, c, c.fn("Entity", "from_raw"), S(), [raw])


def parts(sp, c, st, e):
    s = st.copy()
    r = cell(s, "hnd", e)
    return sp.obs1(c, "Entity", "index", s, [r]), sp.obs1(c, "Entity", "version", s, [r])


def hraw(name):
    return param(name, 0, (1 << 32) - 1)


def recat(sp, c, st, ref):
    return rec(sp, c, st, ref)


def table_default(sp, c):
    sp.rule = "entity-table"
    f = c.fn("EntityRegistry", "default", "Default")
    sp.at(f)
    v = one(sp, c, f, S(), [])
    agree(sp, S(), fld(v, "entities", "$len"), I(0), "a new entity table is empty")
    agree(sp, S(), fld(v, "next_free_slot"), I(NONE_SLOT), "a new entity table has no free slots", show(fld(v, "next_free_slot")))


def lookups(sp, c):
    """a handle is accepted exactly when its slot exists, is live and carries its version"""
    sp.rule = "stale-handle"
    h = hraw("handle")
    for cr in (c, sp.dbg):
        for name in ("entity_entry", "entity_entry_mut"):
            f = cr.fn("EntityRegistry", name)
            sp.at(f)
            st0 = S(le(LEN, I(MAXH)))
            r = table(st0, cr)
            i, v = parts(sp, cr, st0, handle(sp, cr, h))
            n = 0
            for s, ref in lookup(sp, cr, st0, r, h, name):
                agree(sp, s, s.rd(mk("obj", r)), REG, name + " modifies nothing")
                dead = None
                t = s.copy()
                rr = cell(t, "slot", slot(i))
                if ref is not None:
                    n += 1
                    true(sp, s, lt(i, LEN), name + " accepts only handles inside the table", facts_str(s))
                    ver, _, _ = rec(sp, cr, t, rr)
                    true(sp, t, eqi(ver, v), name + " accepts only the current version", facts_str(s))
                    observes(sp, cr, "EntityEntry", "is_valid", t, [rr], True, name + " accepts only live slots")
                    agree(sp, s, rdref(s, ref), slot(i), name + " returns the record of the handle's own slot", show(ref))
                else:
                    t = assume(t, lt(i, LEN))
                    if t is None:
                        sp.check(True, name + " rejects handles outside the table")
                        continue
                    ver, _, ar = rec(sp, cr, t, rr)
                    t = assume(t, eqi(ver, v), NOT(eqi(ar, I(65535))))
                    if t is None:
                        sp.check(True, name + " rejects only dead or outdated handles")
                    else:
                        never(sp, t, name + " rejects only dead or outdated handles")
            if not n:
                sp.undecided(name + " accepts live handles")


def others_unchanged(sp, c, s, r, i, what):
    """no slot other than i changed between the symbolic initial table and s"""
    j = param("other_slot", 0, MAXH)
    t = assume(s, lt(j, LEN), NOT(eqi(i, j)))
    if t is None:
        return
    after = select_i(fld(t.rd(mk("obj", r)), "entities", "$buf"), j, t.facts)
    agree(sp, t, after, slot(j), what + " leaves every other slot alone")


def create(sp, c):
    sp.rule = "entity-table"
    loc = param("row", 0, MAXH)
    arch = param("archetype", 0, 65534)
    for cr in (c, sp.dbg):
        f = cr.fn("EntityRegistry", "create_entity")
        sp.at(f)
        st0 = S()
        r = table(st0, cr)
        ai = mkarch(sp, cr, arch)
        for label, st in table_inv(sp, cr, st0, r):
            for s, v in rets(sp, sp.run(cr, f, st, [r, mkidx(sp, cr, loc), ai]), "create_entity never panics"):
                reg = s.rd(mk("obj", r))
                if v.a[2] == "None":
                    what = f"create_entity fails only when the table is full ({label})"
                    if label == "no free slot":
                        true(sp, s, eqi(LEN, I(MAXH)), what)
                    else:
                        never(sp, s, what)
                    agree(sp, s, reg, REG, "a failed create_entity changes nothing")
                    continue
                e = v.a[4][0]
                i, ver = parts(sp, cr, s, e)
                nlen = fld(reg, "entities", "$len")
                if label == "no free slot":
                    agree(sp, s, i, LEN, "a fresh handle's index is the new slot", show(i))
                    agree(sp, s, ver, I(0), "a fresh slot starts at version 0", show(ver))
                    agree(sp, s, nlen, add(LEN, I(1)), "exactly one slot is appended", show(nlen))
                    true(sp, s, le(nlen, I(MAXH)), "the table stays within the entity limit")
                    agree(sp, s, fld(reg, "next_free_slot"), HEAD, "appending keeps the (empty) free list", show(fld(reg, "next_free_slot")))
                else:
                    t = s.copy()
                    rr = cell(t, "head", slot(HEAD))
                    ov, olink, _ = rec(sp, cr, t, rr)
                    agree(sp, s, i, HEAD, "a recycled handle's index is the free slot", show(i))
                    agree(sp, s, ver, ov, "a recycled handle carries the slot's current version", show(ver))
                    agree(sp, s, nlen, LEN, "recycling does not grow the table", show(nlen))
                    agree(sp, t, fld(reg, "next_free_slot"), olink, "the free list continues with the slot's link", show(fld(reg, "next_free_slot")))
                others_unchanged(sp, cr, s, r, i, "create_entity")
                # the new record, seen through a lookup of the returned handle
                res = sp.run(cr, cr.fn("EntityRegistry", "entity_entry"), s, [r, e])
                for t, w in rets(sp, res, "lookup of a created handle never panics"):
                    if w.a[2] != "Some":
                        never(sp, t, "the created handle is live")
                        continue
                    sp.check(True, "the created handle is live")
                    nv, nix, nar = rec(sp, cr, t, w.a[4][0])
                    agree(sp, t, nix, loc, "the created handle's record holds the given location")
                    agree(sp, t, nar, arch, "the created handle's record holds the given location")
        # room is reported exactly when create succeeds
        f = cr.fn("EntityRegistry", "can_register_new_entity")
        sp.at(f)
        for label, st in table_inv(sp, cr, st0, r):
            for s, v in rets(sp, sp.run(cr, f, st, [r])):
                for want in (True, False):
                    t = assume(s, v if want else NOT(v))
                    if t is None:
                        continue
                    what = f"room for a new entity is reported correctly ({label}, {want})"
                    if label == "free slot":
                        sp.check(True, what) if want else never(sp, t, what)
                    else:
                        true(sp, t, lt(LEN, I(MAXH)) if want else eqi(LEN, I(MAXH)), what)


def destroy(sp, c):
    sp.rule = "stale-handle"
    h = hraw("handle")
    for cr in (c, sp.dbg):
        f = cr.fn("EntityRegistry", "destroy_entity")
        sp.at(f)
        st0 = S(le(LEN, I(MAXH)), le(HEAD, I(NONE_SLOT)))
        r = table(st0, cr)
        hv = handle(sp, cr, h)
        i, v = parts(sp, cr, st0, hv)
        live = [s for s, x in lookup(sp, cr, st0, r, h) if x is not None]
        dead = [s for s, x in lookup(sp, cr, st0, r, h) if x is None]
        sp.at(f)
        seen = False
        for s, b in rets(sp, sp.run(cr, f, st0, [r, hv]), "destroy_entity never panics"):
            reg = s.rd(mk("obj", r))
            for pre, was in [(x, True) for x in live] + [(x, False) for x in dead]:
                t = conj(s, pre)
                if t is None:
                    continue
                true(sp, t, b if was else NOT(b), f"destroy_entity reports {was} for a {'live' if was else 'dead'} handle", show(b))
                if not was:
                    agree(sp, t, reg, REG, "destroying a dead handle changes nothing", show(reg)[:300])
                    continue
                seen = True
                q = t.copy()
                rr = cell(q, "slot", slot(i))
                ov, _, _ = rec(sp, cr, q, rr)
                w = q.copy()
                nr = cell(w, "new", select_i(fld(reg, "entities", "$buf"), i, t.facts))
                nv, nix, nar = rec(sp, cr, w, nr)
                observes(sp, cr, "EntityEntry", "is_valid", w, [nr], False, "a destroyed slot is dead")
                agree(sp, w, nix, HEAD, "a destroyed slot links to the previous free slot", show(nix))
                for cond, want in ((eqi(ov, I(255)), I(0)), (lt(ov, I(255)), add(ov, I(1)))):
                    z = assume(w, cond)
                    if z is not None:
                        nv2 = rec(sp, cr, z, nr)[0]
                        what = "destroying a slot advances its version by one (wrapping)"
                        if bump(z, nv2, ov, want):
                            sp.check(True, what)
                        else:
                            agree(sp, z, nv2, want, what, f"from {show(ov)}")
                agree(sp, t, fld(reg, "next_free_slot"), i, "the destroyed slot becomes the first free slot", show(fld(reg, "next_free_slot")))
                agree(sp, t, fld(reg, "entities", "$len"), LEN, "destroying does not change the table size")
                others_unchanged(sp, cr, t, r, i, "destroy_entity")
                # the handle is dead from now on
                for z, x in rets(sp, sp.run(cr, cr.fn("EntityRegistry", "entity_entry"), t, [r, hv]), "lookup of a destroyed handle never panics"):
                    if x.a[2] == "None":
                        sp.check(True, "a destroyed handle is rejected")
                    else:
                        never(sp, z, "a destroyed handle is rejected")
        if not seen:
            sp.undecided("destroy_entity destroys live handles")


def bump(st, nv, ov, want):
    if same(st, nv, want):
        return True
    # wrapping addition of the undecided form
    return nv.op == "wrap" and nv.a[0] == 8 and sub(nv.a[1], ov) is I(1)


def entity_iter(sp, c):
    """every live handle exactly once, in slot order, then the end"""
    sp.rule = "entity-iteration"
    for cr in (c, sp.dbg):
        nxt = cr.fn("EntityIter", "next", "Iterator")
        mkf = cr.fn("EntityRegistry", "iter")
        sp.at(nxt)
        st0 = S(le(LEN, I(MAXH)))
        r = table(st0, cr)
        it0 = [x for x in sp.run(cr, mkf, st0, [r])]
        if len(it0) != 1 or it0[0][1] != "ret":
            raise Unsupported("entity iterator construction")
        st, first = it0[0][0], it0[0][2]
        st.heap[mk("obj", r)] = REG
        it = cell(st, "iter", first)
        somes = iter_step(sp, cr, nxt, st, r, it, I(-1))
        if not somes:
            sp.undecided("the iterator yields entities")
        # the iterator's states as functions of the position it has passed
        m = param("position", 0, MAXH)
        work = [(s, pos, s.rd(mk("obj", it))) for s, pos in somes]
        fams = []
        while work:
            s, pos, after = work.pop()
            if any(same(s, after, subst(g, {m: pos}, {})) for g in fams):
                continue
            g = generalise(after, pos, m)
            loose = []
            walk(g, lambda x: loose.append(x) if x.op == "sym" else None)
            if loose or len(fams) > 4:
                sp.undecided("the iterator's state is a function of its position", show(after)[:300])
                continue
            fams.append(g)
            s1 = assume(st.copy(), lt(m, LEN))
            s1.heap[mk("obj", it)] = g
            work += [(s2, pos2, s2.rd(mk("obj", it))) for s2, pos2 in iter_step(sp, cr, nxt, s1, r, it, m)]


def generalise(v, pos, m):
    """v with the position replaced by the symbol m"""
    p = poly(pos)
    ks = [x[0] for x in p if len(x) == 1 and p[x] == 1 and x[0].op == "sym"]
    for k in ks:
        rest = sub(pos, k)
        if not mentions(rest, {k}):
            return subst(v, {k: sub(m, rest)}, {})
    return subst(v, {pos: m}, {})


def iter_step(sp, cr, nxt, st, r, it, prev):
    """one step of the entity iterator; returns [(state, yielded slot)]"""
    somes = []
    for s, v in rets(sp, sp.run(cr, nxt, st, [it]), "the entity iterator never panics"):
        if v.a[2] == "Some":
            i, ver = parts(sp, cr, s, v.a[4][0])
            t = s.copy()
            rr = cell(t, "slot", mk("at", BUF, i))
            typed_entry(None, None, mk("at", BUF, i))
            true(sp, s, AND(lt(prev, i), lt(i, LEN)), "yields a slot beyond the previous one and inside the table", f"{show(i)} after {show(prev)} when {facts_str(s)}")
            observes(sp, cr, "EntityEntry", "is_valid", t, [rr], True, "yields only live slots")
            agree(sp, t, ver, rec(sp, cr, t, rr)[0], "yields the slot's current version", show(ver))
            skipped(sp, cr, s, prev, i)
            somes.append((s, i))
        else:
            skipped(sp, cr, s, prev, LEN)
            # fused: asking again yields nothing
            for s2, v2 in rets(sp, sp.run(cr, nxt, s, [it]), "the finished iterator never panics"):
                if v2.a[2] == "None":
                    sp.check(True, "the finished iterator stays finished")
                else:
                    never(sp, s2, "the finished iterator stays finished")
    return somes


def skipped(sp, cr, s, lo, hi):
    j = param("skipped", 0, MAXH)
    t = assume(s, lt(lo, j), lt(j, hi), le(j, I(MAXH)))
    if t is None:
        sp.check(True, "no live slot is skipped")
        return
    e = slot(j)
    for q in instantiate(t, j):
        q = q.copy()
        rr = cell(q, "skipped", e)
        observes(sp, cr, "EntityEntry", "is_valid", q, [rr], False, "no live slot is skipped")
