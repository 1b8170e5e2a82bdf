"""Client programs: paths through sequences of public calls on a registry that starts out empty, compared with what each call promises.

The other rules start from an arbitrary state satisfying the invariants of the fields they know. These start from
Registry::default and look at the registry through its public functions only, so they also cover state the invariants do not
mention (caches, counters, further fields)."""

import copy

from rules_reg import *
from rules_iter import f_call, flat
from rules_reg import K, Z


PICK = param("client's filter")


@amodel("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def f_pick(eng, st, fr, f, args, t):
    """the client's filter: accepts sets of one size"""
    v = args[0]
    while v.op == "ref":
        v = st.read(v.a[0], v.a[1])
    if v is not PICK:
        return f_call(eng, st, fr, f, args, t)
    d = cderef(st, args[1].a[1][0])
    return eqi(select_f(d, "len"), I_(eng.world.pick))


def sample(l):
    return l if len(l) < 17 else l[:5] + l[5:-5:len(l) // 8] + l[-5:]


class Path:
    """a state on one path of the program, with what the client knows there"""

    def __init__(self, st, live, dead):
        self.st, self.live, self.dead = st, live, dead

    def to(self, st):
        return Path(st, dict(self.live), list(self.dead))


def reached(ops, n):
    """the sets of components the program's entities have"""
    if ops is None:
        return [[k for k in range(n) if m >> k & 1] for m in range(1, 1 << n)]
    have, sets = {}, set()
    for verb, name, *args in ops:
        if verb in ("new", "many", "wear"):
            have[name] = set(args[-1] if verb != "new" else args[0])
        elif verb in ("add", "rem"):
            s = have.setdefault(name, set(have.get(name.rstrip("0123456789"), ())))
            (s.add if verb == "add" else s.discard)(args[0])
        sets |= {frozenset(s) for s in have.values()}
    return sorted(sorted(s) for s in sets if s)


class Program:
    def __init__(self, sp, cr, shape, ops=None):
        self.sp, self.cr = sp, cr
        self.w, self.ts, st = rworld(sp, cr, shape)
        st = self.identify(st, reached(ops, len(shape)))
        outs = [o for o in self.w.run("Registry", "default", st, [], trait="Default")]
        if len(outs) != 1 or outs[0][1] != "ret":
            raise Unsupported("default registry")
        st = outs[0][0]
        self.ref = cell(st, "registry", outs[0][2])
        self.paths = [Path(st, {}, [])]
        self.done = []
        self.serial = 0
        self.given = set()

    def branch(self):
        """the same client, free to continue differently"""
        g = copy.copy(self)
        g.paths = [p.to(p.st.copy()) for p in self.paths]
        g.done, g.given = list(self.done), set(self.given)
        return g

    def identify(self, st, sets):
        """the ids of the sets are known to be ordered in one way and not to be reserved; other rules decide the rest"""
        ids = []
        for ks in sets:
            if len(ks) < 2:
                continue
            ts = [self.ts[k] for k in ks]
            forms = [flat(select_f(d, "archetype_id")) for _, d in self.w.desc_forms(ts, st.copy())]
            ids += [x for x in forms if not ground(x)][:1]
        ids.sort(key=lambda x: show(x), reverse=not self.cr.debug)
        for x, y in zip([I_(-1)] + ids, ids + [I_((1 << 32) - 1)]):
            s = st.assume(lt(x, y))
            if s is None:
                raise Unsupported("ids of the sets")
            st = s
        return st

    def call(self, p, name, args, bind, st=None):
        for s, v in returns(self.sp, self.w.run("Registry", name, st or p.st, [self.ref] + args, bind)):
            yield s, v

    def at(self):
        return "after " + "; ".join(self.done)

    def step(self, op):
        verb, *args = op
        self.done.append(" ".join(str(a) for a in op))
        self.sp.at(self.cr.fn("Registry", VERBS[verb]))
        nxt = []
        for p in self.paths:
            n = len(p.st.ev)
            for q in getattr(self, "do_" + verb)(p, *args):
                n = min(n, len(q.st.ev))
                gone = getattr(q, "gone", {})
                self.destroyed(q, n, gone)
                self.forget(q)
                nxt.append(q)
        if len(nxt) > 60:
            raise Unsupported(f"{len(nxt)} paths")
        self.paths = nxt

    def forget(self, p):
        """the variables of finished calls that nothing refers to are gone"""
        h = p.st.heap
        live, work = set(), [x for r, x in h.items() if r.op != "L"]
        work += [x for v, vals in p.live.values() for x in [v, *vals.values()]] + p.dead
        while work:
            for x in locals_in(work.pop()):
                if x not in live and x in h:
                    live.add(x)
                    work.append(h[x])
        for r in [r for r in h if r.op == "L" and r not in live]:
            del h[r]
        p.st.ev = ()

    # ---- what is destroyed
    def destroyed(self, p, n, gone, what="each call destroys exactly what was given up"):
        sp = self.sp
        left = dict(gone)
        for e in list(p.st.ev)[n:]:
            if e.name not in ("drop", "dropcol"):
                continue
            if e.name != "dropcol" or e.a[3] is not I_(1):
                sp.undecided(what, str(e)[:200])
                return
            tn, base, i = e.a[0].a[0], e.a[1], e.a[2]
            ts = [t for t in left if t.name == tn]
            if not ts:
                sp.check(not feasible(p.st), what, f"a component {tn} is destroyed, {self.at()}")
                continue
            v = left.pop(ts[0])
            if ts[0].size is I_(0):
                continue
            es = St(e.heap, p.st.facts)
            for s, got in split(es, lambda y: y.read(mk("obj", base), (mk("i", i),))):
                agree(sp, s, got, v, what, f"{tn}, {self.at()}")
        for t in left:
            sp.check(not feasible(p.st), what, f"component {t.name} is never destroyed, {self.at()}")
        if not left:
            sp.check(True, what)

    # ---- calls
    def ok(self, p, s, v, want, what):
        if v.op != "variant":
            self.sp.undecided(what, show(v)[:200])
            return False
        if v.a[2] != want:
            self.sp.check(not feasible(s), what, f"{v.a[2]}, {self.at()}; {facts_str(s)}")
            return False
        self.sp.check(True, what)
        return True

    def do_new(self, p, name, ks, refuse=False):
        w, sp = self.w, self.sp
        ts = [self.ts[k] for k in ks]
        self.serial += 1
        vals = {t: w.value(t, f"{name}{self.serial}") for t in ts}
        self.given |= set(vals.values())
        st = p.st.copy()
        bind = w.gbind(None if refuse else ts, st)
        value = tup(vals[t] for t in ts)
        for s, v in self.call(p, "create_entity", [value], bind, st):
            if refuse:
                if self.ok(p, s, v, "Err", "create_entity refuses an invalid group"):
                    agree(sp, s, v.a[4][0], value, "a refused create_entity hands the components back", self.at())
                    yield p.to(s)
                continue
            if not self.ok(p, s, v, "Ok", "create_entity succeeds"):
                continue
            h = v.a[4][0]
            for x in [x for x, _ in p.live.values()] + p.dead:
                self.differ(s, h, x, "a created handle was never handed out before")
            q = p.to(s)
            q.live[name] = (h, vals)
            yield q

    def differ(self, s, a, b, what):
        d = same(s, a, b)
        if d:
            self.sp.check(not feasible(s), what, f"{show(a)}, {self.at()}")
        elif all(x.op == "struct" and flat(x).op == "int" for x in (a, b)):
            self.sp.check(True, what)
        else:
            true(self.sp, s, NOT(eqi(flat(a), flat(b))), what, self.at())

    def die(self, p, s, name):
        q = p.to(s)
        h, vals = q.live.pop(name)
        q.dead.append(h)
        return q, vals

    def do_many(self, p, name, n, ks):
        """many entities, without looking in between"""
        work = [p]
        for k in range(n):
            work = [q for x in work for q in self.do_new(x, f"{name}{k}", ks)]
            for q in work:
                self.forget(q)
        return work

    def do_wear(self, p, name, n, ks):
        """entities created and destroyed one after the other"""
        work = [p]
        for k in range(n):
            work = [q for x in work for q in self.do_new(x, name, ks)]
            work = [y for q in work for y in self.do_delmany(q, name, ("",))]
        return work

    def do_delmany(self, p, name, ns):
        work = [p]
        for k in ns:
            nxt = []
            for x in work:
                n = len(x.st.ev)
                for q in self.do_del(x, f"{name}{k}"):
                    self.destroyed(q, n, q.gone)
                    q.gone = {}
                    self.forget(q)
                    nxt.append(q)
            work = nxt
        return work

    def do_del(self, p, name):
        h = p.live[name][0]
        for s, v in self.call(p, "destroy_entity", [h], {}):
            agree(self.sp, s, v, TRUE, "destroy_entity of a live entity succeeds", self.at())
            q, vals = self.die(p, s, name)
            q.gone = vals
            yield q

    def do_take(self, p, name, ks=None):
        h, vals = p.live[name]
        ts = sorted(vals, key=lambda t: t.name) if ks is None else [self.ts[k] for k in ks]
        st = p.st.copy()
        bind = self.w.gbind(ts, st)
        right = set(ts) == set(vals)
        for s, v in self.call(p, "remove_entity", [h], bind, st):
            if not right:
                if self.ok(p, s, v, "None", "remove_entity refuses other than exactly the entity's components"):
                    yield p.to(s)
                continue
            if not self.ok(p, s, v, "Some", "remove_entity of a live entity succeeds"):
                continue
            for j, t in enumerate(ts):
                agree(self.sp, s, select_f(v.a[4][0], str(j)), vals[t], "remove_entity returns the entity's components", f"{t.name}, {self.at()}")
            yield self.die(p, s, name)[0]

    def do_add(self, p, name, k):
        w, t = self.w, self.ts[k]
        h, vals = p.live[name]
        self.serial += 1
        x = w.value(t, f"{name}{self.serial}")
        self.given.add(x)
        for s, v in self.call(p, "add_component", [h, x], w.cbind(t)):
            if t in vals:
                if self.ok(p, s, v, "Err", "add_component refuses a component the entity has"):
                    agree(self.sp, s, v.a[4][0], x, "a refused add_component hands the component back", self.at())
                    yield p.to(s)
                continue
            if self.ok(p, s, v, "Ok", "add_component of a missing component succeeds"):
                q = p.to(s)
                q.live[name] = (h, dict(vals, **{}) | {t: x})
                yield q

    def do_rem(self, p, name, k):
        t = self.ts[k]
        h, vals = p.live[name]
        for s, v in self.call(p, "remove_component", [h], self.w.cbind(t)):
            if t not in vals or len(vals) == 1:
                if self.ok(p, s, v, "Err", "remove_component refuses an absent or only component"):
                    yield p.to(s)
                continue
            if self.ok(p, s, v, "Ok", "remove_component of a present component succeeds"):
                agree(self.sp, s, v.a[4][0], vals[t], "remove_component returns the entity's component", self.at())
                q = p.to(s)
                q.live[name] = (h, {u: x for u, x in vals.items() if u is not t})
                yield q

    def do_set(self, p, name, k):
        """the client writes through get_component_mut"""
        t = self.ts[k]
        h, vals = p.live[name]
        self.serial += 1
        x = self.w.value(t, f"{name}{self.serial}")
        self.given.add(x)
        for s, v in self.call(p, "get_component_mut", [h], self.w.cbind(t)):
            if self.ok(p, s, v, "Some", "get_component_mut of a present component succeeds"):
                pl = self.target(s, v.a[4][0])
                if pl is not None:
                    s.write(pl[0], pl[1], x)
                q = p.to(s)
                q.live[name] = (h, dict(vals) | {t: x})
                yield q

    def do_stale(self, p, k):
        """every operation on every dead handle fails"""
        w, sp, t = self.w, self.sp, self.ts[k]
        work = [p]
        for h in sample(p.dead):
            x = w.value(t, "stale")
            for name, args, bind, want in (
                ("destroy_entity", [], {}, FALSE), ("add_component", [x], w.cbind(t), "Err"), ("remove_component", [], w.cbind(t), "Err"),
                ("remove_entity", [], None, "None"), ("get_component_mut", [], w.cbind(t), "None"),
            ):
                nxt = []
                for q in work:
                    st = q.st.copy()
                    b = w.gbind([t], st) if bind is None else bind
                    for s, v in self.call(q, name, [h] + args, b, st):
                        what = name + " of a dead handle reports failure"
                        if want is FALSE:
                            agree(sp, s, v, FALSE, what, self.at())
                        elif not self.ok(q, s, v, want, what):
                            continue
                        if name == "add_component":
                            agree(sp, s, v.a[4][0], x, "a refused add_component hands the component back", self.at())
                        nxt.append(q.to(s))
                work = nxt
        return work

    # ---- what the client sees
    def target(self, s, r):
        """the place a reference refers to, None for a component without memory"""
        eng = self.w.engine()
        if r.op == "ref":
            return r.a[0], r.a[1]
        if r.op == "poff" or r.op in RAW:
            base, off = baseoff(r)
            if base.op in RAW and base in ELEM:
                i, rest = inelement(base, off, ELEM[base])
                if rest is I_(0):
                    return mk("obj", base), (mk("i", i),)
            if base.op in RAW:
                raise Unsupported("reference " + show(r))
            return None
        if ptrkind(r):
            return None
        raise Unsupported("reference " + show(r))

    def look(self):
        """every handle shows exactly its components with their values, and iteration shows every live entity once"""
        sp, w = self.sp, self.w
        for p in self.paths:
            some = sample(list(p.live))
            for name, (h, vals) in p.live.items():
                for t in self.ts:
                    for s, v in self.call(p, "has_component", [h], w.cbind(t)):
                        agree(sp, s, v, B(t in vals), "has_component tells what the entity has", f"{name} {t.name}, {self.at()}")
                    self.shown(p, "get_component", name, t)
                    if name in some:
                        self.shown(p, "get_component_mut", name, t)
            for h in sample(p.dead):
                for s, v in self.call(p, "get_component", [h], w.cbind(self.ts[0])):
                    self.ok(p, s, v, "None", "a dead handle shows nothing")
            self.entities(p)
            for t in self.ts:
                self.iteration(p, t)
            self.touch(p)

    def shown(self, p, f, name, t):
        """one access to a component of a live entity"""
        sp = self.sp
        h, vals = p.live[name]
        what = f + " shows the entity's component"
        states = []
        for s, v in self.call(p, f, [h], self.w.cbind(t)):
            states.append(s)
            if t not in vals:
                self.ok(p, s, v, "None", what)
            elif self.ok(p, s, v, "Some", what) and t.size is not I_(0):
                pl = self.target(s, v.a[4][0])
                if pl is None:
                    sp.undecided(what, show(v))
                    continue
                for s2, x in split(s, lambda y: y.read(*pl)):
                    agree(sp, s2, x, vals[t], what, f"{name} {t.name}, {self.at()}")
        return states

    def touch(self, p):
        """the client goes on with a registry whose components it has accessed"""
        for name, (h, vals) in sample(list(p.live.items())):
            for t in vals:
                states = self.shown(p, "get_component_mut", name, t)
                if len(states) == 1:
                    p.st = states[0]
        self.forget(p)

    def read(self):
        """the client goes on with a registry it has looked at through shared references"""
        for p in self.paths:
            for h, vals in sample([*p.live.values()] + [(h, {self.ts[0]: None}) for h in p.dead]):
                ts = list(vals)
                for f in ("has_component", "get_component"):
                    self.keep(p, self.call(p, f, [h], self.w.cbind(ts[-1])))
                for f in ("has_components", "get_components"):
                    st = p.st.copy()
                    bind = self.w.gbind(ts, st)
                    self.keep(p, self.call(p, f, [h], bind, st))
            self.keep(p, self.drain(p, "iter_entities", {}, p.st.copy()))
            for kind in ("components", "entity_components"):
                for f in (f"iter_{kind}_matching", f"iter_{kind}_exact", f"iter_filtered_{kind}_matching"):
                    st = p.st.copy()
                    bind = self.w.gbind(self.ts[:1], st)
                    args = [PICK] if "filtered" in f else []
                    self.w.pick = 1
                    self.keep(p, self.call(p, f, args, bind, st) if "exact" in f else self.drain(p, f, bind, st, args))
            self.forget(p)

    def keep(self, p, outcomes):
        states = [s for s, _ in outcomes]
        if len(states) == 1:
            p.st = states[0]

    def drain(self, p, name, bind, st, args=()):
        """[(state, items)] of an iterator"""
        sp, w = self.sp, self.w
        res = []
        for s, it in self.call(p, name, list(args), bind, st):
            ty = basename(it.a[0]) if it.op == "struct" else None
            if ty is None or not self.cr.has(ty, "next", "Iterator"):
                raise Unsupported("iterator " + show(it)[:200])
            c = cell(s, "iterator", it)
            work = [(s, [])]
            while work:
                s, l = work.pop()
                if len(l) > 12 + len(p.live):
                    raise Unsupported("endless iteration")
                for s2, v in returns(sp, w.run(ty, "next", s, [c], bind, "Iterator")):
                    if v.op != "variant":
                        raise Unsupported("item " + show(v))
                    if v.a[2] == "Some":
                        work.append((s2, l + [v.a[4][0]]))
                    else:
                        res.append((s2, l))
        return res

    def entities(self, p):
        sp = self.sp
        sp.at(self.cr.fn("Registry", "iter_entities"))
        what = "iter_entities yields every live entity once"
        for s, l in self.drain(p, "iter_entities", {}, p.st.copy()):
            self.multiset(s, l, [h for h, _ in p.live.values()], what)

    def multiset(self, s, got, want, what):
        sp = self.sp
        if len(got) != len(want):
            sp.check(not feasible(s), what, f"{len(got)} instead of {len(want)}, {self.at()}")
            return
        left = list(want)
        for x in got:
            m = [y for y in left if same(s, x, y)]
            if m:
                left.remove(m[0])
        if not left:
            sp.check(True, what)
        elif all(any(distinct(s, x, y) for y in left) for x in got if not any(same(s, x, z) for z in want)) and all(flat(x).op == "int" for x in got + want):
            sp.check(not feasible(s), what, f"{[show(x) for x in got]} instead of {[show(x) for x in want]}, {self.at()}")
        else:
            sp.undecided(what, f"{[show(x) for x in got]} against {[show(x) for x in want]}")

    def iteration(self, p, t):
        """the rows handed out for a component type are those of the live entities having it"""
        self.matching(p, [t], "iter_entity_components_matching")

    def has(self, p, ts, exact=False, size=None):
        return [
            (h, vals) for h, vals in p.live.values()
            if all(t in vals for t in ts) and (not exact or len(vals) == len(ts)) and (size is None or len(vals) == size)
        ]

    def matching(self, p, ts, f, size=None):
        sp = self.sp
        sp.at(self.cr.fn("Registry", f))
        what = f + " shows every entity having the components with its components"
        st = p.st.copy()
        bind = self.w.gbind(ts, st)
        args = []
        if size is not None:
            args = [PICK]
            self.w.pick = size
        for s, l in self.drain(p, f, bind, st, args):
            self.rows(s, p, l, ts, "entity" in f, self.has(p, ts, size=size), what)

    def exactly(self, p, ts, f):
        sp = self.sp
        sp.at(self.cr.fn("Registry", f))
        what = f + " shows every entity having exactly the components with its components"
        st = p.st.copy()
        bind = self.w.gbind(ts, st)
        for s, v in self.call(p, f, [], bind, st):
            self.rows(s, p, [v], ts, "entity" in f, self.has(p, ts, exact=True), what)

    def rows(self, s, p, items, ts, ents, want, what):
        """what the items show is what the entities have, and entities with the same components are shown together"""
        sp = self.sp
        left, groups = list(want), []
        for x in items:
            hs = select_f(x, "0") if ents else None
            cols = select_f(x, "1") if ents else x
            cols = [select_f(cols, str(j)) for j in range(len(ts))]
            every = cols + ([hs] if ents else [])
            if any(y.op != "fat" or y.a[3].op != "int" for y in every):
                sp.undecided(what, show(x)[:200])
                return
            n = every[0].a[3].a[0]
            if any(y.a[3].a[0] != n for y in every):
                sp.check(not feasible(s), "slices shown together have the same length", f"{[show(y.a[3]) for y in every]}, {self.at()}")
                return
            sp.check(True, "slices shown together have the same length")
            sets = set()
            for k in range(n):
                def cellat(y):
                    r = list(split(s, lambda z: z.read(y.a[0], y.a[1] + (mk("i", add(y.a[2], I_(k))),))))
                    if len(r) != 1:
                        raise Unsupported(f"row has {len(r)} forms")
                    return r[0][1]

                row = [None if t.size is I_(0) else cellat(c) for t, c in zip(ts, cols)]
                h = flat(cellat(hs)) if ents else None
                m = [
                    e for e in left
                    if (h is None or same(s, h, flat(e[0]))) and all(v is None or same(s, v, e[1][t]) for t, v in zip(ts, row))
                ]
                if m:
                    left.remove(m[0])
                    sets.add(tuple(sorted(t.name for t in m[0][1])))
                    continue
                known = {v for _, vals in list(p.live.values()) for v in vals.values()} | self.given
                if (h is None or h.op == "int") and all(v is None or v in known for v in row):
                    sp.check(not feasible(s), what, f"row {[show(v) for v in row if v is not None]} of {show(h) if ents else 'an entity'}, {self.at()}")
                else:
                    sp.undecided(what, f"{row} {h}"[:200])
                return
            if ents or any(t.size is not I_(0) for t in ts):
                sp.check(len(sets) < 2 or not feasible(s), "entities shown together have the same components", f"{sets}, {self.at()}")
                groups += sets
        sp.check(not left or not feasible(s), what, f"{[show(e[0]) for e in left]} missing, {self.at()}")
        sp.check(len(groups) == len(set(groups)) or not feasible(s), "entities with the same components are stored together", f"{groups}, {self.at()}")

    def sweep(self):
        """everything the registry shows, for every set of component types"""
        sp, w = self.sp, self.w
        for p in self.paths:
            for m in range(1, 1 << len(self.ts)):
                ts = [t for k, t in enumerate(self.ts) if m >> k & 1]
                for kind in ("components", "entity_components"):
                    for mut in ("", "_mut"):
                        self.matching(p, ts, f"iter_{kind}_matching{mut}")
                        self.exactly(p, ts, f"iter_{kind}_exact{mut}")
                        for size in (len(ts), len(ts) + 1):
                            self.matching(p, ts, f"iter_filtered_{kind}_matching{mut}", size)
                for h, vals in list(p.live.values()) + [(h, None) for h in p.dead]:
                    st = p.st.copy()
                    bind = w.gbind(ts, st)
                    full = vals is not None and all(t in vals for t in ts)
                    for s, v in self.call(p, "has_components", [h], bind, st.copy()):
                        agree(sp, s, v, B(full), "has_components tells what the entity has", self.at())
                    for f in ("get_components", "get_components_mut"):
                        what = f + " shows the entity's components"
                        sp.at(self.cr.fn("Registry", f))
                        for s, v in self.call(p, f, [h], bind, st.copy()):
                            if not self.ok(p, s, v, "Some" if full else "None", what) or not full:
                                continue
                            for j, t in enumerate(ts):
                                if t.size is I_(0):
                                    continue
                                pl = self.target(s, select_f(v.a[4][0], str(j)))
                                if pl is None:
                                    sp.undecided(what, show(v)[:200])
                                    continue
                                for s2, x in split(s, lambda y: y.read(*pl)):
                                    agree(sp, s2, x, vals[t], what, f"{t.name}, {self.at()}")

    def finish(self):
        """destroying the archetypes destroys what is left, once"""
        sp, w = self.sp, self.w
        what = "dropping the registry destroys every component left exactly once"
        sp.at(self.cr.fn("Archetype", "drop", "Drop"))
        for p in self.paths:
            v = p.st.rd(mk("obj", self.ref))
            path = (F("archetypes"), F("archetypes"))
            n = p.st.read(mk("obj", self.ref), path + (F("$len"),))
            if n.op != "int":
                raise Unsupported("archetypes " + show(n))
            work = [p.st.copy()]
            for k in range(n.a[0]):
                nxt = []
                for s in work:
                    nxt += [s2 for s2, _ in returns(sp, w.run("Archetype", "drop", s, [mk("ref", mk("obj", self.ref), path + (F("$buf"), mk("i", I_(k))))], trait="Drop"))]
                work = nxt
            for s in work:
                left = [(t, x) for _, vals in p.live.values() for t, x in vals.items()]
                bad = False
                for e in list(s.ev)[len(p.st.ev):]:
                    if e.name not in ("drop", "dropcol"):
                        continue
                    if e.name != "dropcol" or e.a[3].op != "int":
                        sp.undecided(what, str(e)[:200])
                        bad = True
                        continue
                    tn, base, i = e.a[0].a[0], e.a[1], e.a[2]
                    for k in range(e.a[3].a[0]):
                        es = St(e.heap, s.facts)
                        ts = [x for x in left if x[0].name == tn]
                        if ts and ts[0][0].size is I_(0):
                            left.remove(ts[0])
                            continue
                        for s2, got in split(es, lambda y: y.read(mk("obj", base), (mk("i", add(i, I_(k))),))):
                            m = [x for x in left if x[0].name == tn and same(s2, got, x[1])]
                            if m:
                                left.remove(m[0])
                            elif vkind(got) and all(x[1] is not got for x in left):
                                sp.check(not feasible(s2), what, f"{tn}: {show(got)}, {self.at()}")
                                bad = True
                            else:
                                sp.undecided(what, show(got))
                                bad = True
                if left and not bad:
                    sp.check(not feasible(s), what, f"{[t.name for t, _ in left]} left, {self.at()}")
                elif not bad:
                    sp.check(True, what)


VERBS = {
    "new": "create_entity", "many": "create_entity", "wear": "destroy_entity", "delmany": "destroy_entity", "del": "destroy_entity", "take": "remove_entity", "add": "add_component", "rem": "remove_component",
    "set": "get_component_mut", "stale": "get_component",
}

N, D, T, A, R_, W, O, M, DM = "new", "del", "take", "add", "rem", "set", "stale", "many", "delmany"
WEAR = "wear"
CROWD = 130
BRIEF = {"crowd", "worn", "widest"}
PROGRAMS = {
    # handles are recycled in several orders, the rows move
    "recycling": ((K, K), [(N, "x", (0, 1)), (N, "y", (0, 1)), (N, "z", (0, 1)), (D, "x"), (N, "u", (0, 1)), (D, "z"), (D, "u"), (O, 0), (N, "v", (1,)), (N, "w", (0, 1)), (O, 1)]),
    "same slot": ((K,), [(N, "x", (0,)), (D, "x"), (N, "y", (0,)), (D, "y"), (O, 0), (N, "z", (0,)), (O, 0), (N, "u", (0,))]),
    # components come and go
    "growing": ((K, K, K), [(N, "x", (1,)), (A, "x", 0), (A, "x", 2), (A, "x", 0), (R_, "x", 1), (R_, "x", 1), (R_, "x", 2), (R_, "x", 0), (A, "x", 1)]),
    "edges": ((K, K, K), [(N, "x", (0,)), (N, "y", (0,)), (N, "z", (0,)), (A, "x", 1), (A, "y", 2), (A, "z", 1), (R_, "x", 0), (R_, "z", 1), (R_, "y", 0)]),
    "columns": ((K, K, K), [(N, "x", (0, 1, 2)), (N, "y", (0, 1, 2)), (N, "z", (0, 1, 2)), (R_, "x", 1), (R_, "z", 0), (A, "x", 1), (W, "x", 0), (W, "y", 2), (D, "y")]),
    # one archetype per set, however it is reached
    "meeting": ((K, K, K), [(N, "x", (0, 1)), (N, "y", (0, 2)), (N, "z", (1, 2)), (A, "x", 2), (A, "y", 1), (A, "z", 0), (T, "y", (0, 1)), (T, "y"), (N, "u", (1, 2)), (D, "x")]),
    "levels": ((K, K, K), [(N, "x", (2,)), (N, "y", (1,)), (N, "z", (0,)), (A, "x", 1), (A, "z", 1), (R_, "x", 1), (T, "x"), (N, "u", (0, 1)), (D, "z"), (O, 2)]),
    # components without memory
    "markers": ((Z, K, Z), [(N, "x", (0, 1)), (N, "y", (0, 2)), (A, "y", 1), (A, "x", 2), (D, "y"), (R_, "x", 0), (R_, "x", 1), (O, 0), (N, "z", (0,))]),
    # archetypes fill up and become empty again
    "emptying": ((K, K), [(M, "e", 4, (0, 1)), (DM, "e", (1, 0)), (DM, "e", (3, 2)), (N, "x", (0, 1)), (N, "y", (1,)), (A, "y", 0), (D, "x"), (R_, "y", 0), (D, "y")]),
    "leaving": ((K, K), [(M, "e", 4, (0,)), (A, "e3", 1), (A, "e0", 1), (A, "e2", 1), (A, "e1", 1), (R_, "e0", 0), (R_, "e1", 0), (R_, "e2", 0), (R_, "e3", 0)]),
    "crowd": ((K, K), [(M, "e", CROWD, (0, 1)), (DM, "e", (0, CROWD - 1, 5)), (R_, "e7", 0), (N, "x", (0, 1))]),
    # one slot used as often as handles can be told apart
    "worn": ((K,), [(N, "x", (0,)), (WEAR, "e", 255, (0,)), (N, "y", (0,)), (O, 0)]),
    # as many components as fit
    "widest": ((K,) * 7 + (Z,) + (K,) * 6, [(N, "x", tuple(range(14))), (N, "y", tuple(range(14))), (R_, "x", 5), (R_, "x", 13), (A, "x", 5), (R_, "y", 0), (A, "x", 13), (D, "y")]),
    # what fails changes nothing
    "failures": ((K, K), [(N, "x", (0,)), (N, "y", (0, 1)), (N, "n", (0, 1), True), (A, "y", 0), (R_, "x", 0), (R_, "x", 1), (T, "y", (0,)), (T, "x", (1,)), (T, "y"), (O, 1), (N, "z", (0, 1))]),
}
if DEEP:
    PROGRAMS["long"] = ((K, K, K), PROGRAMS["meeting"][1][:6] + [(R_, "x", 0), (R_, "y", 1), (R_, "z", 2), (D, "y"), (N, "v", (0, 1)), (A, "v", 2), (T, "v"), (D, "x"), (D, "z"), (O, 0), (N, "w", (2,))])
    PROGRAMS["wide"] = ((K, K, K, K), [(N, "x", (0, 1, 2, 3)), (N, "y", (1, 3)), (A, "y", 0), (A, "y", 2), (R_, "x", 3), (R_, "y", 3), (D, "x"), (N, "z", (0, 2)), (A, "z", 1), (D, "y"), (O, 3)])


def program(name, shape, ops):
    def rule(sp, c):
        sp.rule = "client-programs"
        for cr in (c, sp.dbg):
            with sp.guard(f"program {name}"):
                sp.at(cr.fn("Registry", "default", "Default"))
                g = Program(sp, cr, shape, ops)
                for op in ops:
                    g.step(op)
                    if name not in BRIEF:
                        g.look()
                        g.read()
                        if DEEP:
                            g.sweep()
                if name in BRIEF:
                    g.look()
                    g.read()
                    g.look()
                else:
                    g.sweep()
                g.finish()

    rule.__name__ = "program_" + name.replace(" ", "_")
    rule.__module__ = __name__
    return rule


def moves(live):
    """what a client can do next, x and y being entities of two component types"""
    yield (N, "n", (0,))
    yield (N, "n", (0, 1))
    for e, (_, vals) in live.items():
        yield (D, e)
        yield (T, e)
        for k in (0, 1):
            have = any(t.name == f"{k:02}" for t in vals)
            yield (R_, e, k) if have and len(vals) > 1 else (A, e, k) if not have else (W, e, k)


STARTS = {
    "two entities": [(N, "x", (0, 1)), (N, "y", (0,))],
    "a free slot": [(N, "x", (1,)), (N, "z", (0, 1)), (N, "y", (0, 1)), (D, "z")],
    "a moved row": [(N, "x", (0, 1)), (N, "y", (0, 1)), (R_, "x", 0)],
}
DEPTH = 3 if DEEP else 2


def short(label, start):
    """every sequence of a few calls from a small registry"""

    def rule(sp, c):
        sp.rule = "short-histories"
        for cr in (c, sp.dbg):
            with sp.guard(label):
                sp.at(cr.fn("Registry", "default", "Default"))
                g = Program(sp, cr, (K, K))
                for op in start:
                    g.step(op)
                g.look()
                explore(sp, g, DEPTH)

    rule.__name__ = "short_" + label.replace(" ", "_")
    rule.__module__ = __name__
    return rule


def explore(sp, g, depth):
    if not g.paths:
        return
    for op in list(moves(g.paths[0].live)):
        if op[0] == N:
            op = (N, f"n{depth}", *op[2:])
        h = g.branch()
        with sp.guard("; ".join(map(str, g.done + [op]))):
            h.step(op)
            h.look()
            if depth > 1:
                explore(sp, h, depth - 1)
            else:
                h.finish()


RULES = {name: program(name, *x) for name, x in PROGRAMS.items()}
RULES.update({"short: " + name: short(name, ops) for name, ops in STARTS.items()})
SHORT = [n for n in RULES if n.startswith("short: ")]


def using(pattern, *names):
    return [(RULES[n], pattern) for n in (names + tuple(SHORT) if names else RULES) if n in RULES]
