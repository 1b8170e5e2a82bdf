"""Registries as abstract states: an entity table and archetypes at symbolic positions, each with symbolic rows."""

from arch import *
from rules_entity import typed_entry, rec, idxval, mkidx, mkarch, MAXH

REG = "crate::registry::registry::Registry"
AREG = "crate::archetype_registry::ArchetypeRegistry"
EREG = "crate::entity_registry::EntityRegistry"
KEY = "crate::archetype_registry::sorted_archetype_key::SortedArchetypeKey"
MAXA = 65534
NONE = (1 << 24) - 1


def entry(w, st, ver, row, pos, tag):
    """the record of a live entity, written with the crate's own setters"""
    sp, cr = w.sp, w.cr
    e0 = param("entry:" + tag)
    typed_entry(None, None, e0)
    s = S(*st.facts.items)
    r = cell(s, "rec:" + tag, e0)
    for name, v in (("set_version", ver), ("set_index_in_archetype", mkidx(sp, cr, row)), ("set_archetype_index", pos)):
        outs = [o for o in w.run("EntityEntry", name, s, [r, v]) if o[1] == "ret"]
        if len(outs) != 1:
            raise Unsupported("record setter " + name)
        s = outs[0][0]
    return s.rd(mk("obj", r))


def flat(v):
    while v.op == "struct" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def level_key(w, a, pos):
    return structv(w.cr, KEY, {"id": select_f(a.desc, "archetype_id"), "archetype_index": pos})


class Reg:
    """archs: [(name, types, {"cap":, "cnt":, "pos":})]; ents: [(name, arch name, row)]"""

    def __init__(self, w, st, archs, ents=(), table="any", na=None):
        self.w = w
        sp, cr = w.sp, w.cr
        self.na = na if na is not None else param("archetypes", len(archs), MAXA)
        st.facts = st.facts.add(le(I_(len(archs)), self.na)) or st.facts
        self.archs, self.pos = {}, {}
        buf = mk("init", mk("archbuf"))
        ps = []
        for name, ts, o in archs:
            p = param("pos:" + name, 0, MAXA - 1)
            for c in [lt(p, self.na)] + [NOT(eqi(p, x)) for x in ps]:
                st.facts = st.facts.add(c)
            ps.append(p)
            a = Arch(w, st, name, ts, o.get("cap"), o.get("cnt"))
            self.archs[name], self.pos[name] = a, p
            buf = mk("upd", buf, mk("i", p), a.val)
        if not archs:
            buf = buf if na is not None else EMPTY
        if not archs and na is None:
            self.na = I_(0)
        levels = [[] for _ in range(CAPN)]
        for name, ts, o in archs:
            levels[len(ts) - 1].append(name)
        self.levels = levels
        for l in levels:
            for x, y in zip(l, l[1:]):
                i, j = (flat(select_f(self.archs[n].desc, "archetype_id")) for n in (x, y))
                first = [t.name for t in self.archs[x].ts] < [t.name for t in self.archs[y].ts]
                f = st.facts.add(le(i, j) if first else lt(i, j))
                if f is None:
                    raise Unsupported("level order")
                st.facts = f
        lists = []
        for l in levels:
            lists.append(vecv(mk("arr", *[level_key(w, self.archs[n], self.pos[n]) for n in l]) if l else EMPTY, I_(len(l))))
        self.areg0 = structv(cr, AREG, {"sorted_mappings": mk("arr", *lists), "archetypes": vecv(buf, self.na)})
        # entity table
        self.nt = param("slots", 0, MAXH)
        self.tbl = mk("init", mk("tablebuf"))
        tb = self.tbl
        self.h, self.idx, self.ver, self.row, self.of = {}, {}, {}, {}, {}
        ix = []
        for name, an, row in ents:
            i, v = param("slot:" + name, 0, MAXH - 1), param("version:" + name, 0, 255)
            for c in [lt(i, self.nt)] + [NOT(eqi(i, x)) for x in ix] + [lt(row, self.archs[an].cnt)]:
                f = st.facts.add(c)
                if f is None:
                    raise Unsupported("contradictory scenario")
                st.facts = f
            ix.append(i)
            h = w.one("Entity", "new_unchecked", S(), [i, v])
            self.h[name], self.idx[name], self.ver[name], self.row[name], self.of[name] = h, i, v, row, an
            tb = mk("upd", tb, mk("i", i), entry(w, st, v, row, self.pos[an], name))
            o = mk("obj", self.archs[an].ents)
            st.heap[o] = mk("upd", st.rd(o), mk("i", row), h)
        self.head = param("free_slot", 0, NONE)
        fs = []
        if table == "any":
            head = self.head
            fs += [NOT(eqi(head, x)) for x in ix]
            fs.append(NOT(AND(le(self.nt, head), lt(head, I_(NONE)))))
        elif table == "free":
            head = self.head
            fs += [lt(head, self.nt)] + [NOT(eqi(head, x)) for x in ix]
            d = param("entry:free")
            typed_entry(None, None, d)
            s = S()
            rr = cell(s, "rec:free", d)
            # a free slot is marked dead
            fs.append(NOT(sp.obs1(cr, "EntityEntry", "is_valid", s, [rr], eng=w.engine())))
            lk = rec(sp, cr, s, rr)[1]
            tb = mk("upd", tb, mk("i", head), d)
        elif table in ("room", "full"):
            head = I_(NONE)
            fs.append(lt(self.nt, I_(MAXH)) if table == "room" else eqi(self.nt, I_(MAXH)))
        for c in fs:
            f = st.facts.add(c)
            if f is None:
                raise Unsupported("contradictory scenario")
            st.facts = f
        self.table0 = tb
        self.ereg0 = structv(cr, EREG, {"entities": vecv(tb, self.nt), "next_free_slot": head})
        self.val = structv(cr, REG, {"entities": self.ereg0, "archetypes": self.areg0})
        self.ref = cell(st, "registry", self.val)
        self.obj = mk("obj", self.ref)
        self.heap0 = dict(st.heap)
        self.mine = {b for a in self.archs.values() for b in a.bases + [a.ents]}

    # ---- observation
    def eref(self):
        return mk("ref", self.obj, (F("entities"),))

    def aref(self):
        return mk("ref", self.obj, (F("archetypes"),))

    def archat(self, st, p):
        """the archetype at a position, as [(state, value)]"""
        return split(st, lambda s: s.read(self.obj, (F("archetypes"), F("archetypes"), F("$buf"), mk("i", p))))

    def count(self, st):
        return st.read(self.obj, (F("archetypes"), F("archetypes"), F("$len")))

    def find(self, st, h):
        """[(state, None | (row, position))] as the entity table sees the handle"""
        w = self.w
        r = []
        for s, k, v in w.run("EntityRegistry", "entity_entry", st, [self.eref(), h]):
            if k != "ret" or v.op != "variant":
                raise Unsupported("entity_entry: " + str(v))
            if v.a[2] == "None":
                r.append((s, None))
            else:
                ver, row, pos = rec(w.sp, w.cr, s, v.a[4][0])
                r.append((s, (row, pos)))
        return r

    def lookup(self, st, desc):
        """[(state, None | reference)] of find_archetype"""
        s0 = st.copy()
        q = cell(s0, "wanted", desc)
        r = []
        for s, k, v in self.w.run("ArchetypeRegistry", "find_archetype", s0, [self.aref(), q]):
            if k != "ret" or v.op != "variant":
                raise Unsupported("find_archetype: " + str(v))
            r.append((s, v.a[4][0] if v.a[2] == "Some" else None))
        return r

    def old(self, name, j, q):
        return self.archs[name].old(j, q)
