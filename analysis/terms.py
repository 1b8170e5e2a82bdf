"""Value-numbered terms, polynomial integers and must-facts with a small interval/difference closure."""

import sys
from math import gcd

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "_r", "_l")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
RNG = {}  # atom -> (lo, hi)
SEGS = {}  # value -> bit fields of it that occur


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._r, t._l = op, a, len(_tab), None, None
        _tab[k] = t
    return t


_fresh = [0]


def fresh(name, lo=None, hi=None):
    _fresh[0] += 1
    t = mk("sym", name, _fresh[0])
    if lo is not None or hi is not None:
        RNG[t] = (lo, hi)
    return t


def I(n):
    return mk("int", int(n))


TRUE, FALSE = mk("bool", 1), mk("bool", 0)
UNIT = mk("tuple", (), ())


def B(x):
    return TRUE if x else FALSE


# ---------------------------------------------------------------- polynomials
def poly(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a)
    return {(t,): 1}


def frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return I(0)
    if len(d) > 1 and sum(1 for m in d if len(m) == 1 and m[0].op == "seg") > 1:
        d = joinsegs(d)
    if len(d) == 1:
        ((m, c),) = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1:
            return m[0]
    return mk("poly", *sorted(d.items(), key=lambda x: (len(x[0]), [y.id for y in x[0]])))


def joinsegs(d):
    """adjacent bit fields of one value at matching weights are one field"""
    again = True
    while again:
        again = False
        for m, c in d.items():
            if len(m) != 1 or m[0].op != "seg":
                continue
            b, lo, n = m[0].a
            for m2, c2 in d.items():
                if len(m2) == 1 and m2[0].op == "seg" and m2[0].a[0] is b and m2[0].a[1] == lo + n and c2 == c << n:
                    w = n + m2[0].a[2]
                    l, h = rng(b)
                    whole = lo == 0 and l is not None and l >= 0 and h is not None and h < (1 << w)
                    d = {x: y for x, y in d.items() if x is not m and x is not m2}
                    d = padd(d, poly(b if whole else seg(b, lo, w)), c)
                    again = True
                    break
            if again:
                break
    return d


def padd(p, q, f=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + f * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, e in q.items():
            k = tuple(sorted(m + n, key=lambda x: x.id))
            r[k] = r.get(k, 0) + c * e
    return r


def add(a, b):
    return frompoly(padd(poly(a), poly(b)))


def sub(a, b):
    return frompoly(padd(poly(a), poly(b), -1))


def mul(a, b):
    return frompoly(pmul(poly(a), poly(b)))


def strip(t):
    """divides a polynomial without constant term by the positive factors all its terms share"""
    if t.op != "poly" or t.a[0][0] == ():
        return t
    common = list(t.a[0][0])
    for m, _ in t.a[1:]:
        r, rest = [], list(m)
        for x in common:
            if x in rest:
                rest.remove(x)
                r.append(x)
        common = r
        if not common:
            break
    common = [x for x in common if (RNG.get(x, (None, None))[0] or 0) >= 1]
    g = 0
    for _, c in t.a:
        g = gcd(g, c)
    if not common and g <= 1:
        return t
    d = {}
    for m, c in t.a:
        m = list(m)
        for x in common:
            m.remove(x)
        d[tuple(m)] = c // g
    return frompoly(d)


def ge0(t):
    if t.op == "int":
        return B(t.a[0] >= 0)
    t = strip(t)
    if t.op == "int":
        return B(t.a[0] >= 0)
    return mk("ge0", t)


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


def le(a, b):
    return ge0(sub(b, a))


def eq0(t):
    if t.op == "int":
        return B(t.a[0] == 0)
    if t.op == "poly":
        t = strip(t)
        if t.op == "int":
            return B(t.a[0] == 0)
        if t.op != "poly":
            return mk("eq0", t)
        c = t.a[0][1] if t.a[0][0] != () or len(t.a) == 1 else t.a[1][1]
        # sign normal form: the first non-constant coefficient is positive
        if c < 0:
            t = sub(I(0), t)
    return mk("eq0", t)


def eqi(a, b):
    return eq0(sub(a, b))


GROUND = ("int", "bool", "variant", "struct", "str", "fnitem", "clo", "tuple")


def eqv(a, b):
    """equality of non-integer values"""
    if a is b:
        return TRUE
    if a.op == "bool" and b.op == "bool":
        return FALSE
    if a.op == "bool":
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return NOT(a)
    if a.op == "variant" and b.op == "variant" and a.a[1] != b.a[1]:
        return FALSE
    if isint(a) or isint(b):
        return eqi(a, b)
    if {ptrkind(a), ptrkind(b)} in ({"null", "block"}, {"null", "dangling"}, {"block", "dangling"}):
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def ptrkind(p):
    """null, an address in an allocated block, or a non-null address outside any block"""
    if p.op == "addr" and p.a[0] is I(0):
        return "null"
    if p.op in ("mem", "alloc") or p.op == "poff" and p.a[0].op in ("mem", "alloc"):
        return "block"
    if p.op == "dangling" or p.op == "poff" and p.a[0].op == "addr" and (rng(p.a[1])[0] or 0) >= 1:
        return "dangling"


def isint(t):
    return t.op in ("int", "poly") or t in RNG


def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        return ge0(sub(sub(I(0), t.a[0]), I(1)))
    return mk("not", t)


def AND(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return mk("and", *sorted((a, b), key=lambda x: x.id))


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def rng(t):
    if t.op == "int":
        return t.a[0], t.a[0]
    if t.op == "poly":
        lo = hi = 0
        for m, c in t.a:
            l, h = mrng(m)
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    return RNG.get(t, (None, None))


def mrng(m):
    if m == ():
        return 1, 1
    if len(m) == 1:
        return RNG.get(m[0], (None, None))
    lo, hi = 1, 1
    for x in m:
        l, h = RNG.get(x, (None, None))
        if l is None or l < 0:
            return None, None
        lo *= l
        hi = None if hi is None or h is None else hi * h
    return lo, hi


def plb(p):
    lo = 0
    for m, c in p.items():
        l, h = mrng(m)
        x = l if c > 0 else h
        if x is None:
            return None
        lo += c * x
    return lo


def bounded(t):
    """a truncated value is at most the value: the polynomial that is therefore at least 0"""
    x = t.a[0] if t.op == "seg" else t.a[-1]
    lo = rng(x)[0]
    if lo is None or lo < 0 or t.op != "seg" and RNG[t][0] != 0:
        return None
    return padd(poly(x), {(t,): -(1 << t.a[1] if t.op == "seg" else 1)})


class Facts:
    __slots__ = ("items", "set", "geqs", "cache", "ors", "idx")

    def __init__(self, items=(), s=frozenset(), geqs=(), ors=(), parent=None):
        self.items, self.set, self.geqs, self.cache, self.ors = items, s, geqs, {}, ors
        # monomial, sign -> the inequalities having it
        self.idx = None
        if parent is not None and parent.idx is not None:
            self.idx = dict(parent.idx)
            self.index(len(parent.geqs))

    def index(self, start):
        for i in range(start, len(self.geqs)):
            q = self.geqs[i]
            for m, e in q.items():
                k = (m, e > 0)
                self.idx[k] = self.idx.get(k, ()) + ((i, q, e),)

    def add(self, c):
        """returns new facts, or None when c contradicts them"""
        if c.op == "all":
            f = self
            for x in c.a:
                f = f.add(x)
                if f is None:
                    return None
            return f
        if c.op == "or":
            return self.addor(c)
        f = self.add1(c)
        if f is None or f is self or not f.ors:
            return f
        return f.reduce()

    def addor(self, c):
        """a disjunction: what is left of it under these facts"""
        if c in self.set:
            return self
        live = []
        for x in c.a:
            if x.op in ("all", "and") and all(self.decide(y) is True for y in x.a):
                return self
            if self.add(x) is not None:
                live.append(x)
        if not live:
            return None
        if len(live) == 1:
            return self.add(live[0])
        if len(live) < len(c.a):
            c = mk("or", *live)
        return Facts(self.items + (c,), self.set | {c}, self.geqs, self.ors + (c,))

    def reduce(self):
        """drops the alternatives of disjunctions that have become impossible"""
        for c in self.ors:
            r = Facts(self.items, self.set, self.geqs)
            live = [x for x in c.a if r.add(x) is not None]
            if not live:
                return None
            if len(live) < len(c.a):
                f = Facts(tuple(x for x in self.items if x is not c), self.set - {c}, self.geqs, tuple(x for x in self.ors if x is not c))
                return f.add(live[0] if len(live) == 1 else mk("or", *live))
        return self

    def cases(self, cap=64):
        """the facts with their disjunctions resolved, one per consistent combination (None when there are too many)"""
        if not self.ors:
            return [self]
        res = [Facts(tuple(x for x in self.items if x not in self.ors), self.set - set(self.ors), self.geqs)]
        for c in self.ors:
            res = [y for y in (f.add(x) for f in res for x in c.a) if y is not None]
            if len(res) > cap:
                return None
        out = []
        for f in res:
            k = f.cases(cap)
            if k is None:
                return None
            out += k
            if len(out) > cap:
                return None
        return out

    def settle(self, c):
        """decides c, by cases where the facts hold disjunctions"""
        d = self.decide(c)
        if d is None and self.ors:
            k = self.cases()
            if k is not None:
                ds = {f.decide(c) for f in k}
                if len(ds) == 1:
                    d = ds.pop()
        return d

    def add1(self, c):
        if c is TRUE:
            return self
        if c is FALSE:
            return None
        if c.op == "and":
            f = self.add(c.a[0])
            return f and f.add(c.a[1])
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        g = self.geqs
        items = self.items + (c,)
        s = self.set | {c}
        if c.op == "ge0":
            g = g + (poly(c.a[0]),)
        elif c.op == "eq0":
            p = poly(c.a[0])
            g = g + (p, {m: -x for m, x in p.items()})
        f = Facts(items, s, g, self.ors, self)
        if c.op == "eq0":
            # a known value has known bit fields
            x = c.a[0]
            b = n = None
            if x.op == "poly" and len(x.a) == 2 and x.a[0][0] == () and len(x.a[1][0]) == 1 and abs(x.a[1][1]) == 1:
                b, n = x.a[1][0][0], -x.a[0][1] * x.a[1][1]
            elif x.op != "poly":
                b, n = x, 0
            if b is not None and n >= 0:
                for y in SEGS.get(b, ()):
                    f = f.add(eqi(y, I((n >> y.a[1]) & ((1 << y.a[2]) - 1))))
                    if f is None:
                        return None
        if c.op == "not" and c.a[0].op == "eq0":
            p = c.a[0].a[0]
            # x != its own bound tightens the bound
            if f.prove(poly(p)):
                return f.add(ge0(sub(p, I(1))))
            n = sub(I(0), p)
            if f.prove(poly(n)):
                return f.add(ge0(sub(n, I(1))))
        if c.op in ("ge0", "eq0"):
            for x in self.items:
                if x.op == "not" and x.a[0].op == "eq0":
                    p = x.a[0].a[0]
                    for q in (p, sub(I(0), p)):
                        k = ge0(sub(q, I(1)))
                        if f.prove(poly(q)) and k not in f.set and f.decide(k) is None:
                            f = Facts(f.items + (k,), f.set | {k}, f.geqs + (poly(k.a[0]),), f.ors, f)
                    if f.prove(poly(p)) and f.prove(poly(sub(I(0), p))):
                        return None
        return f

    def prove(self, p):
        return any(self.prove1(p, d) for d in (1, 2, 4))

    def either(self, p, n):
        """True when p >= 0 is proved, False when n >= 0 is, shallow proofs first"""
        for d in (1, 2, 4):
            if self.prove1(p, d):
                return True
            if self.prove1(n, d):
                return False
        return None

    def prove1(self, p, depth=4, used=()):
        lo = plb(p)
        if lo is not None and lo >= 0:
            return True
        if depth == 0:
            return False
        if self.idx is None:
            self.idx = {}
            self.index(0)
        for m, c in p.items():
            if m == ():
                continue
            for i, q, e in self.idx.get((m, c > 0), ()):
                if i in used or c % e:
                    continue
                f = c // e
                if f > 1 << 40:
                    continue
                if self.prove1(padd(p, q, -f), depth - 1, used + (i,)):
                    return True
            if c < 0 and len(m) == 1 and m[0].op in ("seg", "wrap", "trunc") and m not in used:
                q = bounded(m[0])
                if q is not None and c % q[m] == 0 and self.prove1(padd(p, q, -(c // q[m])), depth - 1, used + (m,)):
                    return True
        return False

    def decide(self, c):
        if c.op == "bool":
            return c is TRUE
        r = self.cache.get(c, 0)
        if r == 0:
            r = self._decide(c)
            self.cache[c] = r
        return r

    def _decide(self, c):
        if c in self.set:
            return True
        if NOT(c) in self.set:
            return False
        if c.op == "not":
            d = self.decide(c.a[0])
            return None if d is None else not d
        if c.op == "ge0":
            p = poly(c.a[0])
            return self.either(p, padd({m: -x for m, x in p.items()}, {(): -1}))
        if c.op == "eq0":
            p = poly(c.a[0])
            n = {m: -x for m, x in p.items()}
            if self.either(padd(p, {(): -1}), padd(n, {(): -1})) is not None:
                return False
            if self.prove(p) and self.prove(n):
                return True
            return None
        if c.op == "and":
            d = [self.decide(x) for x in c.a]
            if False in d:
                return False
            return None if None in d else True
        if c.op in ("all", "or"):
            d = [self.decide(x) for x in c.a]
            hit = c.op == "or"
            return hit if hit in d else None if None in d else not hit
        return None


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "poly":
        s = ""
        for m, c in a:
            x = "*".join(show(y, d + 1) for y in m)
            if not x:
                x = str(abs(c))
            elif abs(c) != 1:
                x = f"{abs(c)}*{x}"
            s += ("-" if c < 0 else "+" if s else "") + x
        return s
    if o == "sym":
        return f"{a[0]}#{a[1]}"
    if o == "param":
        return f"{a[1]}"
    if o == "fld":
        return f"{show(a[0], d+1)}.{a[1]}"
    if o == "at":
        return f"{show(a[0], d+1)}[{show(a[1], d+1)}]"
    if o in ("obj", "init"):
        return ("*" if o == "obj" else "") + show(a[0], d + 1)
    if o == "ge0":
        return f"({show(a[0], d+1)} >= 0)"
    if o == "eq0":
        return f"({show(a[0], d+1)} == 0)"
    if o == "eq":
        return f"({show(a[0], d+1)} == {show(a[1], d+1)})"
    if o == "not":
        return f"!{show(a[0], d+1)}"
    if o in ("f", "v"):
        return f".{a[0]}"
    if o == "i":
        return f"[{show(a[0], d+1)}]"
    if o == "struct":
        return f"{a[0].split('::')[-1]}{{{', '.join(f'{n}:{show(x, d+1)}' for n, x in zip(a[1], a[2]))}}}"
    if o == "variant":
        return f"{a[2]}({', '.join(show(x, d+1) for x in a[4])})"
    if o == "tuple":
        return f"({', '.join(show(x, d+1) for x in a[1])})"
    if o == "ref":
        return f"&{show(a[0], d+1)}{''.join(show(x, d+1) for x in a[1])}"
    if o == "L":
        return f"_{a[0]}.{a[1]}"
    return f"{o}({', '.join(show(x, d+1) for x in a)})"


def walk(t, f, seen=None):
    """calls f on every subterm"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            f(x)
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


NOLOCALS = frozenset()


def parts(t):
    """the terms directly inside t"""
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


def locals_in(t):
    """the local variables a term mentions"""
    if t._l is not None:
        return t._l
    st = [t]
    while st:
        x = st[-1]
        if x._l is not None:
            st.pop()
            continue
        ps = list(parts(x))
        todo = [y for y in ps if y._l is None]
        if todo:
            st.extend(todo)
            continue
        r = NOLOCALS
        for y in ps:
            if y._l is not r and y._l:
                r = r | y._l if r else y._l
        if x.op == "L":
            r = r | {x}
        x._l = r
        st.pop()
    return t._l


def mentions(t, syms):
    r = []

    def f(x):
        if x in syms:
            r.append(x)

    walk(t, f)
    return bool(r)


def subst(t, m, memo=None):
    """replaces atoms, re-normalising"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    o = t.op
    if o in ("int", "bool", "sym", "param", "str", "const"):
        r = t
    elif o == "poly":
        p = {}
        for mono, c in t.a:
            q = {(): c}
            for x in mono:
                q = pmul(q, poly(subst(x, m, memo)))
            p = padd(p, q)
        r = frompoly(p)
    else:
        a = tuple(subst(x, m, memo) for x in t.a)
        if a == t.a:
            r = t
        else:
            r = rebuild(o, a)
            if t in RNG and r not in RNG and r.op not in ("int", "poly"):
                RNG[r] = RNG[t]
    memo[t] = r
    return r


def rebuild(o, a):
    if o == "ge0":
        return ge0(a[0])
    if o == "eq0":
        return eq0(a[0])
    if o == "eq":
        return eqv(*a)
    if o == "not":
        return NOT(a[0])
    if o == "and":
        return AND(*a)
    if o == "fld":
        return select_f(a[0], a[1])
    if o == "at":
        return select_i(a[0], a[1], None)
    if o == "upd":
        return upd(*a)
    return mk(o, *a)


# ---------------------------------------------------------------- functional values
class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


def select_f(v, name):
    while True:
        if v.op in ("struct", "clo"):
            if name in v.a[1]:
                return v.a[2][v.a[1].index(name)]
        elif v.op == "variant":
            if name in v.a[3]:
                return v.a[4][v.a[3].index(name)]
            raise Infeasible()
        elif v.op == "tuple":
            if name in v.a[0]:
                return v.a[1][v.a[0].index(name)]
        elif v.op == "upd":
            k = v.a[1]
            if k.op == "f" and k.a[0] == name:
                return v.a[2]
            v = v.a[0]
            continue
        return mk("fld", v, name)


def select_v(v, idx):
    if v.op == "variant":
        if v.a[1] != idx:
            raise Infeasible()
        return v
    return mk("as", v, idx)


def keysolve(key, k, idx):
    """key(k) == idx  ->  k, when key is k plus something free of k"""
    d = sub(key, k)
    if mentions(d, {k}):
        return None
    return sub(idx, d)


def select_i(v, idx, facts):
    """facts None: purely syntactic, never forks"""
    while True:
        if v.op == "arr":
            if idx.op == "int":
                n = idx.a[0]
                if 0 <= n < len(v.a):
                    return v.a[n]
                raise Infeasible()
            if len(set(v.a)) == 1:
                return v.a[0]
        elif v.op == "rep":
            return v.a[0]
        elif v.op == "upd" and v.a[1].op == "i":
            c = eqi(v.a[1].a[0], idx)
            d = facts.decide(c) if facts else (None if c.op != "bool" else c is TRUE)
            if d is True:
                return v.a[2]
            if d is False:
                v = v.a[0]
                continue
            if facts is not None:
                raise NeedFork(c)
        elif v.op == "upd":
            v = v.a[0]
            continue
        elif v.op == "win":
            # bytes copied from another block
            base, src, so, do, n = v.a
            c = AND(le(do, idx), lt(idx, add(do, n)))
            d = facts.decide(c) if facts else (None if c.op != "bool" else c is TRUE)
            if d is True:
                v, idx = src, add(sub(idx, do), so)
                continue
            if d is False:
                v = base
                continue
            if facts is not None:
                for x in c.a if c.op == "and" else (c,):
                    if facts.decide(x) is None:
                        raise NeedFork(x)
        elif v.op == "insert":
            base, at, val, n = v.a
            for c, r in ((eqi(at, idx), 0), (lt(idx, at), 1)):
                d = facts.decide(c) if facts else (None if c.op != "bool" else c is TRUE)
                if d is None:
                    if facts is not None:
                        raise NeedFork(c)
                    return mk("at", v, idx)
                if d:
                    break
            else:
                r = 2
            if r == 0:
                return val
            v, idx = base, idx if r == 1 else sub(idx, I(1))
            continue
        elif v.op == "updall":
            base, k, hi, key, val = v.a
            s = keysolve(key, k, idx)
            if s is not None:
                c = AND(ge0(s), lt(s, hi))
                d = facts.decide(c) if facts else (None if c.op != "bool" else c is TRUE)
                if d is True:
                    return subst(val, {k: s})
                if d is False:
                    v = base
                    continue
                if facts is not None:
                    for x in c.a if c.op == "and" else (c,):
                        if facts.decide(x) is None:
                            raise NeedFork(x)
        return mk("at", v, idx)


def store(v, proj, new, facts=None):
    if not proj:
        return new
    h, r = proj[0], proj[1:]
    if h.op == "f":
        n = h.a[0]
        if v.op in ("struct", "tuple", "variant"):
            if v.op == "struct":
                names, vals = v.a[1], v.a[2]
            elif v.op == "tuple":
                names, vals = v.a
            else:
                names, vals = v.a[3], v.a[4]
            if n in names:
                i = names.index(n)
                nv = store(vals[i], r, new, facts)
                vals = vals[:i] + (nv,) + vals[i + 1 :]
                if v.op == "struct":
                    return mk("struct", v.a[0], names, vals)
                if v.op == "tuple":
                    return mk("tuple", names, vals)
                return mk("variant", v.a[0], v.a[1], v.a[2], names, vals)
        nv = store(select_f(v, n), r, new, facts)
        return upd(v, h, nv)
    if h.op == "v":
        if v.op == "variant" and v.a[1] == h.a[0]:
            return store(v, r, new, facts)
        return store(v, r, new, facts)
    if h.op == "i":
        idx = h.a[0]
        if v.op == "arr" and idx.op == "int" and 0 <= idx.a[0] < len(v.a):
            n = idx.a[0]
            nv = store(v.a[n], r, new, facts)
            return mk("arr", *(v.a[:n] + (nv,) + v.a[n + 1 :]))
        nv = store(select_i(v, idx, facts), r, new, facts) if r else new
        return upd(v, h, nv)
    raise Exception("store " + h.op)


def upd(v, key, new):
    if v.op == "upd":
        if v.a[1] is key:
            return upd(v.a[0], key, new)
        # fields commute: keep a canonical order so that statement order does not matter
        if key.op == "f" and v.a[1].op == "f" and key.a[0] < v.a[1].a[0]:
            return mk("upd", upd(v.a[0], key, new), v.a[1], v.a[2])
    if key.op == "f" and new is mk("fld", v, key.a[0]):
        return v
    if key.op == "i" and new is mk("at", v, key.a[0]):
        return v
    return mk("upd", v, key, new)


# ---------------------------------------------------------------- bit fields
def seg(base, lo, n):
    """bits lo..lo+n of base"""
    t = mk("seg", base, lo, n)
    if t not in RNG:
        RNG[t] = (0, (1 << n) - 1)
        SEGS.setdefault(base, []).append(t)
    return t


def atombits(t, facts, n):
    """bits of an atom as [(atom, i)], 0 above its range"""
    base, lo = t, 0
    w = None
    if t.op == "seg":
        base, lo, w = t.a
    else:
        l, h = RNG.get(t, (None, None))
        if l is None or l < 0 or h is None:
            if facts is not None and facts.decide(ge0(t)) is not True and (l is None or l < 0):
                return None
            h = (1 << 64) - 1 if h is None else h
        w = h.bit_length()
        if facts is not None:
            for k in (8, 16, 24):
                if k < w and facts.decide(ge0(sub(I((1 << k) - 1), t))) is True:
                    w = k
                    break
    return [(base, lo + i) if i < w else 0 for i in range(n)]


def bitsof(t, n, facts=None):
    """low n bits of a non-negative integer term as a list of 0/1/(atom, bit), or None"""
    r = bitsof1(t, n, facts)
    if r is None and t.op == "poly" and nonneg(t, facts):
        # a shifted part above a low part
        for s in sorted({(c & -c).bit_length() - 1 for _, c in t.a if not c & 1}, reverse=True):
            if s == 0 or s >= n:
                continue
            hi = frompoly({m: c >> s for m, c in t.a if c % (1 << s) == 0})
            lo = frompoly({m: c for m, c in t.a if c % (1 << s)})
            if facts is not None and facts.decide(ge0(hi)) is False:
                continue
            lb = bitsof1(lo, 64, facts)
            if lb is None or any(x != 0 for x in lb[s:]):
                continue
            hb = bitsof1(hi, 64, facts)
            if hb is None:
                w = width(hi, facts)
                if w is None or not nonneg(hi, facts):
                    continue
                hb = [(hi, i) if i < w else 0 for i in range(64)]
            return (lb[:s] + hb)[:n]
        # the value as a whole
        w = width(t, facts)
        if w is not None:
            return [(t, i) if i < w else 0 for i in range(n)]
    return r


def nonneg(t, facts):
    l = rng(t)[0]
    return l is not None and l >= 0 or facts is not None and facts.decide(ge0(t)) is True


def width(t, facts):
    l, h = rng(t)
    for k in (8, 16, 24, 32, 64):
        if h is not None and h < (1 << k) or facts is not None and facts.decide(ge0(sub(I((1 << k) - 1), t))) is True:
            return k
    return None


def bitsof1(t, n, facts=None):
    if t.op == "int":
        if t.a[0] < 0:
            return None
        return [(t.a[0] >> i) & 1 for i in range(n)]
    if t.op == "poly":
        r = [0] * n
        for m, c in t.a:
            if c <= 0:
                return None
            if m == ():
                b = [(c >> i) & 1 for i in range(n)]
            else:
                if len(m) != 1 or c & (c - 1):
                    return None
                s = c.bit_length() - 1
                a = atombits(m[0], facts, 64)
                if a is None:
                    return None
                b = ([0] * s + a)[:n]
                b += [0] * (n - len(b))
            for i in range(n):
                if b[i] != 0:
                    if r[i] != 0:
                        return None
                    r[i] = b[i]
        return r
    return atombits(t, facts, n)


def unbits(bs, facts=None):
    """canonical term of a bit list"""
    p = {}
    i, n = 0, len(bs)
    while i < n:
        b = bs[i]
        if b == 0:
            i += 1
            continue
        if b == 1:
            p[()] = p.get((), 0) + (1 << i)
            i += 1
            continue
        j = i
        while j + 1 < n and isinstance(bs[j + 1], tuple) and bs[j + 1][0] is b[0] and bs[j + 1][1] == b[1] + (j + 1 - i):
            j += 1
        w = j - i + 1
        base, lo = b
        whole = False
        if lo == 0:
            l, h = rng(base)
            if h is not None and l is not None and l >= 0 and h < (1 << w):
                whole = True
            elif facts is not None and facts.decide(ge0(sub(I((1 << w) - 1), base))) is True:
                whole = True
        a = base if whole else seg(base, lo, w)
        p = padd(p, poly(a), 1 << i)
        i = j + 1
    return frompoly(p)


# ---------------------------------------------------------------- valuation
class NoValue(Exception):
    pass


def evalt(t, env, memo=None):
    """value of a term over integers under a valuation of its atoms"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = evalt1(t, env, memo)
    return r


def evalt1(t, env, memo):
    if t in env:
        return env[t]
    o, a = t.op, t.a
    ev = lambda x: evalt(x, env, memo)
    if o in ("int", "bool"):
        return int(a[0])
    if o == "poly":
        s = 0
        for m, c in a:
            for x in m:
                c *= ev(x)
            s += c
        return s
    if o == "ge0":
        return int(ev(a[0]) >= 0)
    if o == "eq0":
        return int(ev(a[0]) == 0)
    if o == "not":
        return 1 - ev(a[0])
    if o == "and":
        return int(all(ev(x) for x in a))
    if o == "all":
        return int(all(ev(x) for x in a))
    if o == "or":
        return int(any(ev(x) for x in a))
    if o == "boolint":
        return ev(a[0])
    if o == "seg":
        return (ev(a[0]) >> a[1]) & ((1 << a[2]) - 1)
    if o == "wrap":
        lo, hi = RNG[t]
        return (ev(a[1]) - lo) % (hi - lo + 1) + lo
    if o == "trunc":
        lo, hi = RNG[t]
        return (ev(a[2]) - lo) % (hi - lo + 1) + lo
    if o == "frombytes":
        return sum(ev(x) << (8 * i) for i, x in enumerate(a))
    if o == "bnot":
        return RNG[t][1] ^ ev(a[0])
    if o == "npow2":
        return 1 << max(0, (ev(a[1]) - 1).bit_length())
    if o in ("bitand", "bitor", "bitxor", "shl", "shr", "div", "rem"):
        x, y = ev(a[1]), ev(a[2])
        if o == "bitand":
            return x & y
        if o == "bitor":
            return x | y
        if o == "bitxor":
            return x ^ y
        if o == "shl":
            return (x << y % a[0]) & ((1 << a[0]) - 1)
        if o == "shr":
            return x >> y % a[0]
        if y == 0:
            raise NoValue("division by zero")
        return x // y if o == "div" else x % y
    raise NoValue(show(t))


def atoms(ts):
    """the integer atoms terms depend on"""
    r = set()

    def f(x):
        if x.op in ("param", "sym", "cparam", "at", "fld", "init") and x in RNG:
            r.add(x)

    for t in ts:
        walk(t, f)
    return sorted(r, key=lambda x: x.id)


def differ(a, b, facts=(), n=60, seed=5):
    """a valuation of the atoms within the facts under which two integer terms differ, or None"""
    import random

    rnd = random.Random(seed)
    at = atoms([a, b] + list(facts))
    for k in range(n):
        env = {}
        for x in at:
            lo, hi = RNG[x]
            lo, hi = (0 if lo is None else lo), ((1 << 16) if hi is None else hi)
            env[x] = rnd.choice((lo, hi, rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 7)))) if k else lo
        try:
            m = {}
            if not all(evalt(f, env, m) for f in facts):
                continue
            x, y = evalt(a, env, m), evalt(b, env, m)
        except NoValue:
            return None
        if x != y:
            return env, x, y
    return None


# ---------------------------------------------------------------- models of path facts
OPAQUE = ("param", "sym", "cparam", "at", "fld", "init", "fnv", "slen", "sizeof", "alignof", "discr", "boolint")


def leaves(ts):
    """the integer unknowns of conditions; None when a condition is not about integers"""
    r, bad = set(), []

    def f(t):
        o, a = t.op, t.a
        if o in ("int", "bool"):
            return
        if t in RNG and o in OPAQUE:
            r.add(t)
            return
        if o == "poly":
            for m, c in a:
                for x in m:
                    f(x)
            return
        if o in ("ge0", "eq0", "not", "and", "or", "all", "seg", "wrap", "trunc", "frombytes", "bnot", "bitand", "bitor", "bitxor", "shl", "shr", "div", "rem", "npow2"):
            for x in a:
                if isinstance(x, T):
                    f(x)
            return
        bad.append(t)

    for t in ts:
        f(t)
    return None if bad else r


ZERO, ONE = I(0), I(1)


def place_of(t, env):
    """the place an unknown is read from, with its indices evaluated"""
    if isinstance(t, tuple):
        return tuple(place_of(x, env) for x in t)
    if not isinstance(t, T):
        return t
    if t.op == "at":
        try:
            return ("at", place_of(t.a[0], env), evalt(t.a[1], env, {}))
        except NoValue:
            return t
    if t.op in ("fld", "as"):
        return (t.op, place_of(t.a[0], env)) + tuple(t.a[1:])
    return t


def findmodel(conds, seed=11, restarts=24, steps=400):
    """a valuation of the integer unknowns under which all conditions hold, or None when none is found (or one is not about
    integers)"""
    import random

    cs = []

    def flat(c):
        if c.op in ("and", "all"):
            for x in c.a:
                flat(x)
        elif c.op == "forall":
            # enough for a model: an empty range, or a range of one
            n, j, alts = c.a[0], c.a[1].a[0], c.a[2:]
            one = [subst(x, {j: ZERO}, {}) for x in alts]
            if leaves(one) is None:
                flat(le(n, ZERO))
            else:
                cs.append(mk("or", le(n, ZERO), mk("all", le(n, ONE), mk("or", *one))))
        elif c.op == "exists":
            n, j, alts = c.a[0], c.a[1].a[0], c.a[2:]
            flat(lt(ZERO, n))
            cs.append(mk("or", *[subst(x, {j: ZERO}, {}) for x in alts]))
        elif c.op == "not" and c.a[0].op == "exists":
            n, j, alts = c.a[0].a[0], c.a[0].a[1].a[0], c.a[0].a[2:]
            none = [NOT(subst(x, {j: ZERO}, {})) for x in alts]
            if leaves(none) is None:
                flat(le(n, ZERO))
            else:
                cs.append(mk("or", le(n, ZERO), mk("all", le(n, ONE), *none)))
        elif c is not TRUE:
            cs.append(c)

    for c in conds:
        flat(c)
    if FALSE in cs:
        return None
    vs = leaves(cs)
    if vs is None:
        return None
    vs = sorted(vs, key=lambda x: x.id)
    rnd = random.Random(seed)
    box = {}
    for v in vs:
        lo, hi = RNG[v]
        box[v] = (0 if lo is None else lo, (1 << 40) if hi is None else hi)

    def clip(v, n):
        lo, hi = box[v]
        return max(lo, min(hi, n))

    def pick(v):
        lo, hi = box[v]
        return rnd.choice((lo, hi, rnd.randint(lo, hi), rnd.randint(lo, min(hi, lo + 9)), rnd.randint(lo, min(hi, lo + 300))))

    def within(t):
        sh = 0
        while t.op in ("seg", "trunc", "wrap"):
            if t.op == "seg":
                sh += t.a[1]
            t = t.a[0] if t.op == "seg" else t.a[-1]
        return t, sh

    def repair(c, env, want=True):
        """changes the valuation towards c being true (false)"""
        o = c.op
        if o == "not":
            return repair(c.a[0], env, not want)
        if o in ("and", "or", "all"):
            allof = (o != "or") == want
            m = [x for x in c.a if not evalt(x, env) == int(want)]
            if not m:
                return
            return repair(rnd.choice(m), env, want)
        if o in ("ge0", "eq0") and (want or o == "ge0"):
            p = poly(c.a[0])
            v = evalt(c.a[0], env)
            k = [(m, x) for m, x in p.items() if m and m[0] in box and len(m) == 1]
            rnd.shuffle(k)
            k += [(m, x) for m, x in p.items() if len(m) == 1 and m[0].op in ("seg", "trunc", "wrap") and within(m[0])[0] in box]
            if rnd.random() < 0.5:
                rnd.shuffle(k)
            for m, x in k:
                q = m[0]
                if q.op in ("seg", "trunc", "wrap"):
                    # an aligned part of an unknown
                    q, sh = within(q)
                    d = -v // x if v % x == 0 or o == "ge0" else 0
                    n = clip(q, env[q] + (d << sh))
                    if n != env[q]:
                        env[q] = n
                        return
                    continue
                n = env[q]
                if o == "eq0":
                    d = -v // x if v % x == 0 else None
                    if d is None:
                        continue
                else:
                    d = -(v // x) if want else -((v + 1) // x) if x > 0 else (v + 1 + (-x) - 1) // (-x)
                n2 = clip(q, n + d + (rnd.choice((0, 0, 0, 1, 2, 5)) if o == "ge0" and d > 0 else 0) - (rnd.choice((0, 0, 0, 1, 2, 5)) if o == "ge0" and d < 0 else 0))
                if n2 != n:
                    env[q] = n2
                    return
        l = [x for x in (leaves([c]) or ()) if x in box]
        if l:
            q = rnd.choice(sorted(l, key=lambda x: x.id))
            env[q] = rnd.choice((pick(q), clip(q, env[q] + 1), clip(q, env[q] - 1)))

    for r in range(restarts):
        env = {v: (box[v][0] if r == 0 else pick(v)) for v in vs}
        try:
            for k in range(steps):
                memo = {}
                bad = [c for c in cs if not evalt(c, env, memo)]
                if not bad:
                    # equal arguments of an uninterpreted function give equal values, and so do equal places
                    seen, good = {}, True
                    for v in vs:
                        if v.op in ("at", "fld"):
                            if seen.setdefault(place_of(v, env), env[v]) != env[v]:
                                good = False
                    for v in vs:
                        if v.op == "fnv":
                            key = tuple(evalt(x, dict((y, env.get(y, 0)) for y in atoms([x])) | env, {}) for x in v.a)
                            if seen.setdefault(key, env[v]) != env[v]:
                                good = False
                    if good:
                        return env
                    break
                repair(rnd.choice(bad), env)
        except NoValue:
            return None
    return None
