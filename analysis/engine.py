"""Path-sensitive abstract interpretation of MIR: value-numbered memory, must-facts per path, an effect log,
and loops closed by summaries over an arbitrary iteration (nothing is executed or enumerated)."""

import json
from terms import *


class Unsupported(Exception):
    pass


class Ev:
    __slots__ = ("name", "a", "heap", "facts", "sp", "fn", "prev")

    def __init__(self, name, a, heap, facts, sp, fn):
        self.name, self.a, self.heap, self.facts, self.sp, self.fn = name, a, heap, facts, sp, fn

    def __repr__(self):
        return f"{self.name}({', '.join(show(x) if isinstance(x, (T, tuple)) else str(x) for x in self.a)})"


class LoopEv:
    """effects of the continuing iterations of a loop: for all k in [0, count)"""

    __slots__ = ("k", "count", "paths", "sp", "fn", "name", "a", "heap", "facts", "head")

    def __init__(self, k, count, paths, sp, fn):
        self.k, self.count, self.paths, self.sp, self.fn = k, count, paths, sp, fn
        self.name, self.a, self.heap, self.facts = "loop", (k, count), None, None

    def __repr__(self):
        return f"loop[{show(self.k)} < {show(self.count)}]{self.paths}"


RAW = ("mem", "alloc")
ELEM = {}  # raw blocks that hold equal-sized elements -> element size; these are addressed by element


class Misaligned(Unsupported):
    """an address inside a block that is not the address of one of its elements"""

    def __init__(self, base, off, size):
        super().__init__(f"offset {show(off)} in a block of elements of {show(size)} bytes")
        self.base, self.off, self.size = base, off, size


class Fault(Exception):
    """an invalid memory access, definite on the current path"""


def rawidx(base, off):
    k = ELEM.get(base)
    if k is None:
        return off
    r = divide(off, k)
    if r is None:
        raise Misaligned(base, off, k)
    return r


def unstride(root, proj):
    """an element of a slice over raw memory is the cell at its byte offset"""
    if len(proj) < 2 or proj[1].op != "i":
        raise Unsupported("unsized raw memory")
    return (mk("i", rawidx(root.a[0], mul(proj[1].a[0], proj[0].a[0]))),) + proj[2:]


def mkref(root, proj):
    if proj and proj[0].op == "s":
        proj = unstride(root, proj)
    if root.op == "obj" and root.a[0].op in RAW and len(proj) == 1 and proj[0].op == "i":
        k = ELEM.get(root.a[0])
        return poff(root.a[0], proj[0].a[0] if k is None else mul(proj[0].a[0], k))
    if not proj and root.op == "obj":
        return root.a[0]
    return mk("ref", root, proj)


def poff(p, n):
    if n.op == "int" and n.a[0] == 0:
        return p
    if p.op == "poff":
        n = add(p.a[1], n)
        p = p.a[0]
        if n.op == "int" and n.a[0] == 0:
            return p
    return mk("poff", p, n)


def divide(t, d):
    """t / d when the division is exact"""
    if t.op == "int" and t.a[0] == 0 or t is d:
        return I(0) if t.op == "int" and t.a[0] == 0 else I(1)
    r = {}
    for m, c in poly(t).items():
        if d.op == "int":
            if d.a[0] == 0 or c % d.a[0]:
                return None
            r[m] = c // d.a[0]
        else:
            if d not in m:
                return None
            m = list(m)
            m.remove(d)
            r[tuple(m)] = c
    return frompoly(r)


class St:
    __slots__ = ("heap", "facts", "ev", "tr")

    def __init__(self, heap, facts, ev=(), tr=()):
        self.heap, self.facts, self.ev, self.tr = heap, facts, ev, tr

    def copy(self):
        return St(dict(self.heap), self.facts, self.ev, self.tr)

    def assume(self, c):
        """new state with c assumed, or None"""
        f = self.facts.add(c)
        if f is None:
            return None
        s = self.copy()
        s.facts = f
        return s

    # memory
    def rd(self, root):
        v = self.heap.get(root)
        if v is None:
            return mk("init", root)
        return v

    def read(self, root, proj):
        v = self.rd(root)
        if proj and proj[0].op == "s":
            proj = unstride(root, proj)
        for e in proj:
            if e.op == "f":
                v = select_f(v, e.a[0])
            elif e.op == "v":
                v = select_v(v, e.a[0])
            else:
                v = select_i(v, e.a[0], self.facts)
        return v

    def write(self, root, proj, val):
        if proj and proj[0].op == "s":
            proj = unstride(root, proj)
        self.heap[root] = store(self.rd(root), proj, val, self.facts)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.insts = {i["inst"]: i for i in d["insts"]}
        self.impls, self.traits = d["impls"], d["traits"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.crates, self.statics = d["crates"], d.get("statics", [])
        self.byinst = None
        self.bykey = {f["key"]: f for f in self.fns}
        self.bypath = {}
        for f in self.fns:
            self.bypath.setdefault(f["path"], f)
        self.cfgs = {}

    def ty(self, i):
        return self.types[i]

    def tystr(self, i):
        return self.types[i]["s"]

    def irange(self, i):
        t = self.types[i]
        if t["k"] == "uint":
            return 0, (1 << t["bits"]) - 1
        if t["k"] == "int":
            b = t["bits"]
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        return None

    def instances(self, key):
        if self.byinst is None:
            self.byinst = {}
            for i in self.insts.values():
                self.byinst.setdefault(i["key"], []).append(i)
        return self.byinst.get(key, [])

    def loops(self, inst, body):
        """header -> set of blocks"""
        c = body.get("_loops")
        if c is not None:
            return c
        B = body["blocks"]
        n = len(B)

        def succ(i):
            t = B[i]["t"]
            k = t["k"]
            if k == "goto":
                return [t["t"]]
            if k == "switch":
                return [x[1] for x in t["ts"]] + [t["else"]]
            if k in ("drop", "assert"):
                return [t["t"]]
            if k == "call":
                return [t["t"]] if t["t"] is not None else []
            return []

        order, seen = [], set()
        stack = [(0, iter(succ(0)))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ(y))))
                    break
            else:
                order.append(x)
                stack.pop()
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for y in succ(b):
                preds[y].append(b)
        dom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                nd = None
                for p in preds[b]:
                    if p in dom:
                        if nd is None:
                            nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = dom[x]
                                while pos[y] > pos[x]:
                                    y = dom[y]
                            nd = x
                if dom.get(b) != nd:
                    dom[b] = nd
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if dom[b] == b:
                    return False
                b = dom[b]

        L = {}
        for b in order:
            for y in succ(b):
                if dominates(y, b):
                    s = L.setdefault(y, {y})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in s:
                            s.add(x)
                            w.extend(preds[x])
        body["_loops"] = L
        return L


PANIC = "panic"


class Frame:
    __slots__ = ("inst", "body", "fid", "prog", "depth", "active")

    def __init__(self, inst, body, fid, depth):
        self.inst, self.body, self.fid, self.depth = inst, body, fid, depth
        self.active = ()


class Engine:
    def __init__(self, prog, models, contracts=None, debug=False, hooks=None):
        self.p = prog
        self.models = models
        self.contracts = contracts or {}
        self.debug = debug
        self.fid = 0
        self.steps = 0
        self.limit = 400000
        self.top = None
        self.consts = {}
        self.unknown = []
        self.stats = {"blocks": 0, "calls": 0, "loops": 0, "forks": 0, "paths": 0, "fns": set()}
        self.loopinfo = {}
        self.cut = None  # cut-point mode: collects loop transitions instead of summarising
        self.keep_cold = False
        self.unroll = 0  # loops are followed iteration by iteration up to this bound
        self.bind = {}  # type parameter -> description of the type it stands for
        self.touch = None  # checks an access to raw memory: (state, block, element, count)
        self.where = ("?", "?")

    # ------------------------------------------------------------ values
    def typed(self, v, ty):
        """records the range of an opaque integer"""
        r = self.p.irange(ty)
        if r and v.op not in ("int", "poly") and v not in RNG:
            RNG[v] = r
        return v

    def lval(self, st, fr, pl):
        n, projs, _ = pl
        root, proj, sl = mk("L", fr.fid, n), (), None
        for e in projs:
            k = e[0]
            if k == "*":
                v = st.read(root, proj)
                try:
                    root, proj, sl = self.deref(st, v)
                except Misaligned as x:
                    if e is projs[-1] and self.sizeof(pl[2]) is x.size:
                        x.whole = True
                    raise
            elif k == "f":
                proj = proj + (mk("f", e[2]),)
            elif k == "d":
                proj = proj + (mk("v", e[1]),)
            elif k == "i":
                i = st.read(mk("L", fr.fid, e[1]), ())
                self.typed(i, fr.body["locals"][e[1]])
                if sl:
                    i = add(sl[0], i)
                    sl = None
                proj = proj + (mk("i", i),)
            elif k == "c":
                i = I(e[1])
                if e[2]:
                    if not sl:
                        raise Unsupported("array from end")
                    i = sub(sl[1], i)
                if sl:
                    i = add(sl[0], i)
                    sl = None
                proj = proj + (mk("i", i),)
            elif k == "ss":
                if not sl:
                    raise Unsupported("subslice")
                frm, to, fe = e[1], e[2], e[3]
                s0 = add(sl[0], I(frm))
                ln = sub(sub(sl[1], I(to)), I(frm)) if fe else I(to - frm)
                sl = (s0, ln)
            else:
                raise Unsupported("projection " + str(e))
        return root, proj, sl

    def deref(self, st, v):
        if v.op == "ref":
            return v.a[0], v.a[1], None
        if v.op == "fat":
            if self.touch and v.a[0].op == "obj" and v.a[0].a[0].op in RAW:
                self.touch(st, v.a[0].a[0], v.a[2], v.a[3])
            return v.a[0], v.a[1], (v.a[2], v.a[3])
        if v.op == "struct" and v.a[0] == "Box":
            return self.deref(st, v.a[2][0])
        if v.op in RAW:
            if self.touch:
                self.touch(st, v, I(0), I(1))
            return mk("obj", v), (mk("i", I(0)),), None
        if v.op == "poff" and v.a[0].op in RAW:
            i = rawidx(v.a[0], v.a[1])
            if self.touch:
                self.touch(st, v.a[0], i, I(1))
            return mk("obj", v.a[0]), (mk("i", i),), None
        if self.touch and v.op in ("addr", "poff", "dangling"):
            self.touch(st, v, None, I(1))
        return mk("obj", v), (), None

    def slen(self, v):
        t = mk("slen", v)
        RNG[t] = (0, (1 << 63) - 1)
        return t

    def asfat(self, v):
        if v.op == "fat":
            return v
        if v.op == "ref":
            raise Unsupported("thin reference as slice " + show(v))
        return mk("fat", mk("obj", v), (), I(0), self.slen(v))

    def rdplace(self, st, fr, pl):
        root, proj, sl = self.lval(st, fr, pl)
        if sl:
            raise Unsupported("read of unsized place")
        v = st.read(root, proj)
        return self.typed(v, pl[2])

    def mkref(self, root, proj, sl=None):
        if sl:
            return mk("fat", root, proj, sl[0], sl[1])
        return mkref(root, proj)

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.rdplace(st, fr, o["p"])
        if k == "rtcheck":
            return B(o["what"] == "OverflowChecks" and self.debug)
        return self.const(st, fr, o)

    def const(self, st, fr, o):
        ty = self.p.ty(o["ty"])
        if "fn" in o:
            return mk("fnitem", o["fn"].get("inst") or o["fn"].get("rdef") or o["fn"]["def"], self.intern_fn(o["fn"]))
        if "val" in o:
            return self.scalar(o["val"], o["ty"])
        if o.get("zst"):
            return self.zst(o["ty"])
        if "str" in o:
            return mk("str", o["str"])
        if "promoted" in o:
            return self.promoted(st, fr, o)
        if "cparam" in o:
            c = o["cparam"]
            if isinstance(c, int):
                return I(c)
            if c in self.bind:
                return self.bind[c]
            t = mk("cparam", c)
            r = self.p.irange(o["ty"])
            RNG[t] = r if r else (None, None)
            return t
        if "def" in o:
            nm = o.get("rdef") or o["def"]
            if self.bind and o["args"] and isinstance(o["args"][0], int):
                b = self.bind.get(self.p.tystr(o["args"][0]))
                b = b and b.get("::".join(o["def"].split("::")[-2:]))
                if b is None:
                    b = self.bind.get(o["def"])
                if b is not None:
                    return b
            ci = o.get("cinst")
            if ci and not nm.endswith("::DESCRIPTOR") and ci in self.p.insts:
                return self.evalconst(st, ci)
            a = o.get("rargs", o["args"])
            args = tuple(self.p.tystr(x) if isinstance(x, int) else str(x) for x in a if x is not None)
            # associated constants of the same type are one constant, however it is named
            t = mk("const", o["def"] if "::DESCRIPTOR" in nm else nm, args)
            if "::DESCRIPTOR" in nm:
                sa = tuple(self.p.tystr(x) if isinstance(x, int) else str(x) for x in o["args"] if x is not None)
                if o.get("rdef") and not o.get("rdef").endswith("Component::DESCRIPTOR"):
                    pass
                t = mk("const", o["def"], sa)
            return self.typed(t, o["ty"])
        if ty["k"] == "tuple" and not ty["es"]:
            return UNIT
        return mk("const", o.get("dbg", "?"), ())

    def scalar(self, v, ty):
        t = self.p.ty(ty)
        if t["k"] == "bool":
            return B(v)
        if t["k"] == "int":
            b = t["bits"]
            if v >= 1 << (b - 1):
                v -= 1 << b
            return I(v)
        if t["k"] in ("uint", "char"):
            return I(v)
        if t["k"] == "adt":
            a = self.p.adts.get(t["def"])
            if a and a["enum"]:
                for i, x in enumerate(a["variants"]):
                    if (x["discr"] & 0xFF) == (v & 0xFF) and not x["fields"]:
                        return mk("variant", t["def"], i, x["name"], (), ())
            if a and not a["enum"] and len(a["variants"][0]["fields"]) == 1 and a["local"]:
                f = a["variants"][0]["fields"][0]
                return mk("struct", t["def"], (f[0],), (self.scalar(v, f[1]),))
            if t["def"] == "core::option::Option" and v == 0:
                return mk("variant", t["def"], 0, "None", (), ())
        if t["k"] in ("ptr", "ref"):
            return mk("addr", I(v))
        return mk("scalar", t["s"], v)

    def zst(self, ty):
        t = self.p.ty(ty)
        if t["k"] == "tuple":
            return UNIT
        if t["k"] == "closure":
            return mk("clo", t.get("inst") or t["key"], (), ())
        if t["k"] == "adt":
            return mk("struct", t["def"], (), ())
        if t["k"] == "fndef":
            return mk("fnitem", t["key"], 0)
        if t["k"] == "array":
            return mk("arr")
        return mk("zst", t["s"])

    _fns = {}

    def intern_fn(self, f):
        k = f.get("inst") or json.dumps(f, sort_keys=True)
        n = len(self._fns)
        if k not in self._fns:
            self._fns[k] = f
        return k

    def newfid(self):
        self.fid += 1
        return self.fid

    def promoted(self, st, fr, o):
        if o["key"] != fr.inst["key"]:
            return mk("const", o["dbg"], ())
        b = fr.inst["promoted"][o["promoted"]]
        ck = ("prom", fr.inst["inst"], o["promoted"])
        if ck not in self.consts:
            outs = self.exec_body(fr.inst, b, [], St({}, Facts()), fr.depth + 1, keep=True)
            if len(outs) != 1 or outs[0][1] != "ret":
                raise Unsupported("promoted constant")
            self.consts[ck] = (outs[0][2], outs[0][0].heap)
        v, h = self.consts[ck]
        for r, x in h.items():
            st.heap.setdefault(r, x)
        return v

    def evalconst(self, st, ci):
        if ci not in self.consts:
            inst = self.p.insts[ci]
            try:
                outs = self.exec_body(inst, inst["body"], [], St({}, Facts()), 1, keep=True)
            except Unsupported:
                outs = []
            if len(outs) != 1 or outs[0][1] != "ret":
                self.consts[ci] = (mk("const", inst["path"], ()), {})
            else:
                self.consts[ci] = (outs[0][2], outs[0][0].heap)
        v, h = self.consts[ci]
        for r, x in h.items():
            st.heap.setdefault(r, x)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, sp):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "rawptr"):
            root, proj, sl = self.lval(st, fr, r["p"])
            return self.mkref(root, proj, sl)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            n = r["n"]
            return mk("rep", v, I(n) if isinstance(n, int) else self.cparam(n))
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "bin":
            return self.binop(st, fr, r)
        if k == "un":
            o = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                if self.p.ty(r["ty"])["k"] == "bool":
                    return NOT(o)
                t = self.p.ty(r["ty"])
                if o.op == "int" and t["k"] == "uint":
                    return I(o.a[0] ^ ((1 << t["bits"]) - 1))
                return self.typed(mk("bnot", o), r["ty"])
            if r["op"] == "Neg":
                return sub(I(0), o)
            if r["op"] == "PtrMetadata":
                if o.op == "fat":
                    return o.a[3]
                if o.op == "ref":
                    return UNIT
                if o.op == "str":
                    return I(len(o.a[0].encode()))
                return self.slen(o)
            raise Unsupported("unary " + r["op"])
        if k == "discr":
            v = self.rdplace(st, fr, r["p"])
            return self.discr(v, r["p"][2])
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in r["ops"])
            ak = r["ak"]
            if ak == "array":
                return mk("arr", *ops)
            if ak == "tuple":
                return mk("tuple", tuple(str(i) for i in range(len(ops))), ops)
            if ak == "adt":
                if "active" in r:
                    return mk("union", r["def"], ops[0])
                if r["enum"]:
                    return mk("variant", r["def"], r["variant"], r["vname"], tuple(r["fields"]), ops)
                return mk("struct", r["def"], tuple(r["fields"]), ops)
            if ak == "closure":
                return mk("clo", r["key"], tuple(str(i) for i in range(len(ops))), ops)
            if ak == "rawptr":
                p, m = ops
                if m is UNIT:
                    return p
                return self.fatof(p, m)
            raise Unsupported("aggregate " + ak)
        raise Unsupported("rvalue " + k + " " + r.get("s", ""))

    def fatof(self, p, n, ety=None):
        """slice pointer from a thin pointer to the first element"""
        if p.op in RAW or p.op == "poff" and p.a[0].op in RAW:
            k = self.sizeof(ety)
            b, off = (p, I(0)) if p.op in RAW else p.a
            s0 = divide(off, k)
            if s0 is None:
                raise Unsupported("slice at " + show(p) + " with stride " + show(k))
            return mk("fat", mk("obj", b), (mk("s", k),), s0, n)
        if p.op == "ref" and p.a[1] and p.a[1][-1].op == "i":
            return mk("fat", p.a[0], p.a[1][:-1], p.a[1][-1].a[0], n)
        if p.op == "ref":
            return mk("fat", p.a[0], p.a[1], I(0), n)
        return mk("fat", mk("obj", p), (), I(0), n)

    def discr(self, v, ty):
        t = self.p.ty(ty)
        if v.op == "variant":
            a = self.p.adts.get(v.a[0])
            if a:
                return I(a["variants"][v.a[1]]["discr"])
            return I(v.a[1])
        d = mk("discr", v)
        if t["k"] == "adt":
            a = self.p.adts.get(t["def"])
            if a and a["enum"]:
                ds = [x["discr"] for x in a["variants"]]
                ds = [x - 256 if x == 255 else x for x in ds]
                RNG[d] = (min(ds), max(ds))
        return d

    def cast(self, st, fr, r):
        o = self.operand(st, fr, r["o"])
        ck = r["ck"]
        t, f = self.p.ty(r["ty"]), self.p.ty(r["from"])
        if ck.startswith("IntToInt"):
            if f["k"] == "bool":
                return self.boolint(o)
            if f["k"] not in ("uint", "int", "char"):
                if f["k"] == "adt":
                    return self.discr(o, r["from"])
                raise Unsupported("cast from " + f["s"])
            return self.intcast(st, o, r["ty"])
        if ck.startswith("PtrToPtr") or ck.startswith("FnPtrToPtr"):
            if o.op == "fat" and t["k"] == "ptr" and self.p.ty(t["e"])["k"] not in ("slice", "str"):
                return self.mkref(o.a[0], o.a[1] + (mk("i", o.a[2]),))
            return o
        if ck.startswith("PointerCoercion(Unsize"):
            if f["k"] in ("ref", "ptr") and self.p.ty(f["e"])["k"] == "array":
                n = self.p.ty(f["e"])["n"]
                n = I(n) if isinstance(n, int) else self.cparam(n)
                root, proj, _ = self.deref(st, o)
                return mk("fat", root, proj, I(0), n)
            return o
        if ck.startswith("PointerCoercion(ReifyFn") or ck.startswith("PointerCoercion(ClosureFn"):
            return o
        if ck.startswith("PointerCoercion(MutToConst"):
            return o
        if ck.startswith("PointerCoercion(ArrayToPointer"):
            root, proj, _ = self.deref(st, o)
            return self.mkref(root, proj + (mk("i", I(0)),))
        if ck.startswith("Transmute") or ck.startswith("Subtype"):
            return self.transmute(o, r["from"], r["ty"])
        if ck.startswith("PointerExposeProvenance") or ck.startswith("PointerWithExposed"):
            return o if o.op not in ("int",) else mk("addr", o)
        raise Unsupported("cast " + ck)

    def cparam(self, n):
        if n in self.bind:
            return self.bind[n]
        t = mk("cparam", n)
        RNG.setdefault(t, (0, (1 << 63) - 1))
        return t

    def boolint(self, o):
        if o.op == "bool":
            return I(o.a[0])
        t = mk("boolint", o)
        RNG[t] = (0, 1)
        return t

    def intcast(self, st, o, ty):
        lo, hi = self.p.irange(ty)
        if o.op == "int":
            n = (o.a[0] - lo) % (hi - lo + 1) + lo
            return I(n)
        l, h = rng(o)
        if l is not None and h is not None and l >= lo and h <= hi:
            return o
        if st.facts.decide(ge0(sub(o, I(lo)))) and st.facts.decide(ge0(sub(I(hi), o))):
            return o
        n = (hi - lo + 1).bit_length() - 1
        if lo == 0:
            b = bitsof(o, n, st.facts)
            if b is not None:
                return unbits(b, st.facts)
        t = mk("trunc", n, "s" if lo < 0 else "u", o)
        RNG[t] = (lo, hi)
        return t

    def transmute(self, o, f, t):
        ft, tt = self.p.ty(f), self.p.ty(t)
        if ft["k"] == "uint" and tt["k"] == "array":
            return self.tobytes(o, ft["bits"])
        if ft["k"] == "array" and tt["k"] == "uint":
            return self.frombytes(o, tt["bits"])
        if ft["k"] in ("uint", "int") and tt["k"] in ("ref", "ptr") or (
            tt["k"] == "adt" and tt["def"].startswith("core::ptr::NonNull") and isint(o)
        ):
            return mk("addr", o)
        if o.op == "struct" and len(o.a[1]) == 1 and ft["k"] == "adt" and tt["k"] in ("uint", "int", "ptr", "ref"):
            v = o.a[2][0]
            return v
        if ft["k"] == "adt" and tt["k"] in ("ptr", "ref") and o.op == "struct":
            while o.op == "struct" and o.a[2]:
                o = o.a[2][0]
            return o
        if tt["k"] == "adt" and ft["k"] in ("uint", "int"):
            a = self.p.adts.get(tt["def"])
            if a and not a["enum"] and len(a["variants"][0]["fields"]) == 1:
                return mk("struct", tt["def"], (a["variants"][0]["fields"][0][0],), (o,))
        return o

    def tobytes(self, o, bits):
        n = bits // 8
        r = []
        for i in range(n):
            if o.op == "int":
                r.append(I((o.a[0] >> (8 * i)) & 255))
            else:
                b = bitsof(o, bits)
                if b is None:
                    r.append(seg(o, 8 * i, 8))
                else:
                    r.append(unbits(b[8 * i : 8 * i + 8]))
        return mk("arr", *r)

    def frombytes(self, o, bits):
        n = bits // 8
        bs = tuple(select_i(o, I(i), None) for i in range(n))
        if all(b.op == "int" for b in bs):
            return I(sum(b.a[0] << (8 * i) for i, b in enumerate(bs)))
        for b in bs:
            if b.op not in ("int", "poly") and b not in RNG:
                RNG[b] = (0, 255)
        l = []
        for b in bs:
            x = bitsof(b, 8)
            if x is None:
                l = None
                break
            l += x
        if l is not None:
            return unbits(l)
        t = mk("frombytes", *bs)
        RNG[t] = (0, (1 << bits) - 1)
        return t

    def binop(self, st, fr, r):
        a, b = self.operand(st, fr, r["l"]), self.operand(st, fr, r["r"])
        return self.bin(st, r["op"], a, b, r["ty"])

    def bin(self, st, op, a, b, ty):
        t = self.p.ty(ty)
        k = t["k"]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if k in ("uint", "int", "char"):
                self.typed(a, ty)
                self.typed(b, ty)
                if op == "Eq":
                    return eqi(a, b)
                if op == "Ne":
                    return NOT(eqi(a, b))
                if op == "Lt":
                    return lt(a, b)
                if op == "Le":
                    return le(a, b)
                if op == "Gt":
                    return lt(b, a)
                if op == "Ge":
                    return le(b, a)
                return self.cmp3(a, b)
            if k == "bool" and op in ("Lt", "Gt", "Le", "Ge"):
                raise Unsupported("bool order")
            if op == "Eq":
                return self.eqany(a, b)
            if op == "Ne":
                return NOT(self.eqany(a, b))
            x = mk("cmpop", op, a, b)
            return x
        if k == "bool":
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op == "BitXor":
                return NOT(self.eqany(a, b))
        if op == "Offset":
            return self.ptr_offset(st, a, b, self.p.ty(ty)["e"])
        lo, hi = self.p.irange(ty)
        self.typed(a, ty)
        bits = t.get("bits", 64)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            v = {"Add": add, "Sub": sub, "Mul": mul}[base](a, b)
            if op.endswith("WithOverflow"):
                ov = NOT(AND(ge0(sub(v, I(lo))), ge0(sub(I(hi), v))))
                return mk("tuple", ("0", "1"), (v, ov))
            if v.op == "int":
                n = (v.a[0] - lo) % (hi - lo + 1) + lo
                return I(n)
            if not op.endswith("Unchecked") and not self.debug:
                # wrapping arithmetic of the release configuration: exact only when it cannot wrap
                d = st.facts.decide(AND(ge0(sub(v, I(lo))), ge0(sub(I(hi), v))))
                if d is not True and bits < 64:
                    w = mk("wrap", bits, v)
                    RNG[w] = (lo, hi)
                    return w
                if d is False:
                    w = mk("wrap", bits, v)
                    RNG[w] = (lo, hi)
                    return w
            return v
        if base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor", "Div", "Rem"):
            if a.op == "int" and b.op == "int":
                x, y = a.a[0], b.a[0]
                m = (1 << bits) - 1
                if base == "Shl":
                    z = (x << (y % bits)) & m
                elif base == "Shr":
                    z = x >> (y % bits)
                elif base == "BitAnd":
                    z = x & y
                elif base == "BitOr":
                    z = x | y
                elif base == "BitXor":
                    z = x ^ y
                elif y == 0:
                    raise Infeasible()
                elif base == "Div":
                    z = int(x / y) if abs(x) < 1 << 50 else x // y
                else:
                    z = x - y * (x // y)
                v = I(z)
            else:
                if base == "BitAnd" and b.op == "int" and b.a[0] == (1 << bits) - 1:
                    v = a
                elif self.bitop(st, base, a, b, bits) is not None and lo == 0:
                    v = self.bitop(st, base, a, b, bits)
                else:
                    if base in ("BitAnd", "BitOr", "BitXor") and (a.op == "int" or b.op != "int" and a.id > b.id):
                        a, b = b, a
                    v = mk(base.lower(), bits, a, b)
                    h = hi
                    if base == "Shr" and b.op == "int":
                        h = hi >> (b.a[0] % bits)
                    if base == "BitAnd" and b.op == "int":
                        h = min(hi, b.a[0])
                    RNG[v] = (lo, h)
            if op.endswith("WithOverflow"):
                return mk("tuple", ("0", "1"), (v, FALSE))
            return v
        raise Unsupported("binary " + op)

    def bitop(self, st, base, a, b, bits):
        """bit operations on bit fields"""
        fs = st.facts
        x = bitsof(a, bits, fs)
        if base in ("Shl", "Shr"):
            if x is None or b.op != "int":
                return None
            n = b.a[0] % bits
            x = ([0] * n + x)[:bits] if base == "Shl" else x[n:] + [0] * n
            return unbits(x, fs)
        y = bitsof(b, bits, fs)
        if x is None or y is None:
            return None
        r = []
        for p, q in zip(x, y):
            if base == "BitAnd":
                z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
            elif base == "BitOr":
                z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
            elif base == "BitXor":
                z = 0 if p == q else q if p == 0 else p if q == 0 else None
            elif base in ("Div", "Rem") and b.op == "int" and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0:
                n = b.a[0].bit_length() - 1
                return unbits(x[n:] + [0] * n if base == "Div" else x[:n], fs)
            else:
                z = None
            if z is None:
                return None
            r.append(z)
        return unbits(r, fs)

    def eqany(self, a, b):
        if a is b:
            return TRUE
        if a.op in ("struct", "tuple") and b.op == a.op and len(a.a[-1]) == len(b.a[-1]):
            r = TRUE
            for x, y in zip(a.a[-1], b.a[-1]):
                r = AND(r, self.eqany(x, y))
            return r
        return eqv(a, b)

    def cmp3(self, a, b):
        t = mk("cmp", a, b)
        return t

    def sizeof(self, ty):
        t = self.p.ty(ty)
        if t["s"] in self.bind and "size" in self.bind[t["s"]]:
            return self.bind[t["s"]]["size"]
        if t["k"] in ("uint", "int"):
            return I(t["bits"] // 8)
        if t["k"] == "bool":
            return I(1)
        if t["k"] == "adt":
            a = self.p.adts.get(t["def"])
            if t["def"] in ("core::mem::ManuallyDrop", "core::mem::MaybeUninit"):
                return self.sizeof([x for x in t["args"] if isinstance(x, int)][0])
            if a and a["local"] and not a["enum"] and len(a["variants"][0]["fields"]) == 1:
                return self.sizeof(a["variants"][0]["fields"][0][1])
        if t["k"] == "tuple" and not t["es"]:
            return I(0)
        x = mk("sizeof", t["s"])
        RNG[x] = (0, (1 << 63) - 1)
        return x

    def alignof(self, ty):
        t = self.p.ty(ty)
        if t["s"] in self.bind and "align" in self.bind[t["s"]]:
            return self.bind[t["s"]]["align"]
        if t["k"] in ("uint", "int"):
            return I(t["bits"] // 8)
        if t["k"] == "adt":
            a = self.p.adts.get(t["def"])
            if a and a["local"] and not a["enum"] and len(a["variants"][0]["fields"]) == 1:
                return self.alignof(a["variants"][0]["fields"][0][1])
        x = mk("alignof", t["s"])
        RNG[x] = (1, 1 << 29)
        return x

    def ptr_offset(self, st, p, n, ety):
        """p + n elements of type ety"""
        if p.op == "ref" and p.a[1] and p.a[1][-1].op == "i":
            return self.mkref(p.a[0], p.a[1][:-1] + (mk("i", add(p.a[1][-1].a[0], n)),))
        return self.byte_offset(p, mul(n, self.sizeof(ety)))

    def byte_offset(self, p, n):
        return poff(p, n)

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s["k"]
        self.where = (s["sp"] if "sp" in s else "?", fr.inst["path"])
        if k == "=":
            v = self.rvalue(st, fr, s["r"], s["sp"])
            root, proj, sl = self.lval(st, fr, s["p"])
            st.write(root, proj, v)
        elif k == "setd":
            root, proj, sl = self.lval(st, fr, s["p"])
            t = self.p.ty(s["p"][2])
            a = self.p.adts[t["def"]]
            x = a["variants"][s["v"]]
            old = st.read(root, proj)
            names = tuple(f[0] for f in x["fields"])
            vals = tuple(mk("fld", mk("as", old, s["v"]), n) for n in names)
            st.write(root, proj, mk("variant", t["def"], s["v"], x["name"], names, vals))
        elif k == "assume":
            c = self.operand(st, fr, s["o"])
            f = st.facts.add(c)
            if f is None:
                raise Infeasible()
            st.facts = f
        elif k == "copyno":
            a, b, n = (self.operand(st, fr, s[x]) for x in ("src", "dst", "n"))
            t = self.p.ty(s["src"]["p"][2]) if "p" in s["src"] else None
            e = t["e"] if t else None
            h = self.models.get("$copy")
            if h and e is not None:
                h(self, st, fr, a, b, n, self.sizeof(e))
                return
            self.emit(st, fr, "copy", (a, b, mul(n, self.sizeof(e)) if e is not None else n), s["sp"])

    def emit(self, st, fr, name, args, sp):
        st.ev = st.ev + (Ev(name, args, st.heap.copy(), st.facts, sp, fr.inst["path"] if fr else "?"),)

    def run(self, inst, st, args):
        """all outcomes of a function: (state, 'ret'|'panic', value)"""
        i = self.p.insts[inst] if isinstance(inst, str) else inst
        return self.exec_body(i, i["body"], args, st, 0, keep=True)

    def exec_body(self, inst, body, args, st, depth, keep=False):
        if depth > 60:
            raise Unsupported("recursion")
        self.stats["fns"].add(inst["path"])
        fr = Frame(inst, body, self.newfid(), depth)
        st = st.copy()
        for i, a in enumerate(args):
            st.heap[mk("L", fr.fid, i + 1)] = a
            self.typed(a, body["locals"][i + 1])
        rets, outs = [], []
        for s2, kind, x in self.exec_blocks(fr, st, 0, None, None):
            if kind == "ret":
                v = s2.rd(mk("L", fr.fid, 0))
                self.typed(v, body["locals"][0])
                outs.append((s2, "ret", v))
            else:
                outs.append((s2, kind, x))
        if not keep:
            for i, (s2, kind, v) in enumerate(outs):
                self.gc(s2, fr.fid, v)
        return self.merge(outs)

    def gc(self, st, fid, v):
        """drops the locals of a finished frame that nothing refers to"""
        mine = [r for r in st.heap if r.op == "L" and r.a[0] == fid]
        if not mine:
            return
        live = set()
        ms = set(mine)

        def mark(t):
            for x in locals_in(t):
                if x in ms and x not in live:
                    live.add(x)
                    mark(st.heap[x])

        if isinstance(v, T):
            mark(v)
        for r, x in st.heap.items():
            if x._l is not NOLOCALS and r not in ms:
                mark(x)
        for e in st.ev[-40:]:
            for x in e.a:
                if isinstance(x, T) and x._l is not NOLOCALS:
                    mark(x)
        for r in mine:
            if r not in live:
                del st.heap[r]

    def merge(self, outs):
        """identical outcomes keep only their common facts"""
        if len(outs) < 2:
            return outs
        res, seen = [], {}
        for o in outs:
            s, k, v = o
            key = (k, v if isinstance(v, T) else str(v), tuple(id(e) for e in s.ev), frozenset(s.heap.items()))
            if key in seen and k == "ret":
                j = seen[key]
                t = res[j][0]
                common = [f for f in t.facts.items if f in s.facts.set]
                # what holds on either path, as a disjunction
                da = [f for f in t.facts.items if f not in s.facts.set]
                db = [f for f in s.facts.items if f not in t.facts.set]
                nf = Facts()
                for f in common:
                    nf = nf.add(f) or nf
                if da and db:
                    nf = nf.add(mk("or", self.disj(da), self.disj(db))) or nf
                ns = t.copy()
                ns.facts = nf
                res[j] = (ns, k, v)
            else:
                seen[key] = len(res)
                res.append(o)
        return res

    def disj(self, fs):
        return mk("all", *sorted(fs, key=lambda x: x.id))

    def exec_blocks(self, fr, st, bb, stop, within):
        """runs from block bb. stop: block that ends the run as ('back', None); leaving `within` ends as ('exit', bb)"""
        res = []
        work = [(st, bb, True)]
        B = fr.body["blocks"]
        L = self.p.loops(fr.inst, fr.body)
        while work:
            st, bb, first = work.pop()
            self.steps += 1
            self.stats["blocks"] += 1
            if self.steps > self.limit:
                raise Unsupported("analysis budget exhausted")
            if not (first and bb == stop):
                if bb == stop:
                    res.append((st, "back", None))
                    continue
                if within is not None and bb not in within:
                    res.append((st, "exit", bb))
                    continue
                if bb in L:
                    for o in self.loop(fr, st, bb, L[bb]):
                        s2, kind, x = o
                        if kind == "exit":
                            work.append((s2, x, False))
                        else:
                            res.append(o)
                    continue
            for s2, kind, x in self.block(fr, st, B[bb]):
                if kind == "next":
                    work.append((s2, x, False))
                else:
                    res.append((s2, kind, x))
        return res

    def block(self, fr, st, b):
        """-> [(state, 'next', bb) | (state, 'ret'|'panic'|..., x)]"""
        sts = [st.copy()]
        out = []
        for s in b["s"]:
            nxt = []
            for x in sts:
                nxt.extend(self.forking(lambda y: (self.stmt(y, fr, s), [(y,)])[1], x))
            sts = [x[0] for x in nxt if len(x) == 1]
            out.extend(x for x in nxt if len(x) > 1)
        for x in sts:
            out.extend(self.forking(lambda y: self.term(y, fr, b["t"]), x))
        return out

    def forking(self, f, st, depth=0):
        if depth > 12:
            raise Unsupported("case split too deep")
        try:
            return f(st.copy())
        except Infeasible:
            return []
        except Fault as x:
            return [(st, PANIC, ("memory: " + str(x),) + self.where)]
        except Misaligned as x:
            r = self.misaligned(x, st)
            if r is None:
                raise
            return r
        except NeedFork as e:
            self.stats["forks"] += 1
            out = []
            for c in (e.cond, NOT(e.cond)):
                s2 = st.assume(c)
                if s2 is not None:
                    out.extend(self.forking(f, s2, depth + 1))
            return out

    def misaligned(self, x, st):
        """outcomes when an element is accessed away from the element boundaries"""
        return None

    def switch(self, st, d, ty, ts, other):
        out = []
        t = self.p.ty(ty)
        if t["k"] == "bool":
            m = {v: b for v, b in ts}
            for v in (0, 1):
                s2 = st.assume(d if v else NOT(d))
                if s2 is not None:
                    out.append((s2, "next", m.get(v, other)))
            return out
        cur = st
        if d.op == "discr" and d.a[0].op == "cmp":
            # comparison result: -1, 0, 1
            a, b = d.a[0].a
            conds = {-1: lt(a, b), 0: eqi(a, b), 1: lt(b, a)}
            rest = dict(conds)
            for v, bb in ts:
                v = v - 256 if v == 255 else v
                c = rest.pop(v, None)
                if c is None:
                    continue
                s2 = st.assume(c)
                if s2 is not None:
                    out.append((s2, "next", bb))
            for c in rest.values():
                s2 = st.assume(c)
                if s2 is not None:
                    out.append((s2, "next", other))
            return out
        for v, bb in ts:
            if t["k"] == "int" and v >= 1 << (t["bits"] - 1):
                v -= 1 << t["bits"]
            c = eqi(d, I(v))
            s2 = cur.assume(c)
            if s2 is not None:
                out.append((s2, "next", bb))
            cur = cur.assume(NOT(c))
            if cur is None:
                return out
        out.append((cur, "next", other))
        return out

    def term(self, st, fr, t):
        k = t["k"]
        self.where = (t.get("sp", "?"), fr.inst["path"])
        if k == "goto":
            return [(st, "next", t["t"])]
        if k == "return":
            return [(st, "ret", None)]
        if k == "switch":
            d = self.operand(st, fr, t["d"])
            self.typed(d, t["ty"])
            return self.switch(st, d, t["ty"], t["ts"], t["else"])
        if k == "unreachable":
            return [(st, "unreachable", t["sp"])]
        if k in ("resume", "abort"):
            return []
        if k == "drop":
            if t["nd"]:
                root, proj, sl = self.lval(st, fr, t["p"])
                v = st.read(root, proj) if not sl else mk("slice")
                ty = self.p.tystr(t["p"][2])
                h = self.models.get("$drop")
                if h:
                    r = h(self, st, fr, ty, root, proj, v, t["sp"], self.p.ty(t["p"][2]))
                    if r is not None:
                        return [(s, "next", t["t"]) if kk == "ret" else (s, kk, x) for s, kk, x in r]
                self.emit(st, fr, "drop", (mk("ty", ty), v, self.mkref(root, proj, sl)), t["sp"])
            return [(st, "next", t["t"])]
        if k == "assert":
            c = self.operand(st, fr, t["c"])
            if not t["e"]:
                c = NOT(c)
            out = []
            ok, bad = st.assume(c), st.assume(NOT(c))
            if ok is not None:
                out.append((ok, "next", t["t"]))
            if bad is not None:
                out.append((bad, "panic", ("assert:" + t["m"]["k"], t["sp"], fr.inst["path"])))
            return out
        if k == "call":
            return self.call(st, fr, t)
        raise Unsupported("terminator " + k)

    def call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t["args"]]
        if "fn" in t:
            outs = self.invoke(st, fr, t["fn"], args, t)
        else:
            f = self.operand(st, fr, t["ptr"])
            outs = self.call_value(st, fr, f, args, t, direct=True)
        res = []
        for s2, kind, v in outs:
            if kind == "ret":
                if t["t"] is None:
                    res.append((s2, "panic", ("noreturn", t["sp"], fr.inst["path"])))
                    continue
                s2 = s2.copy()
                root, proj, sl = self.lval(s2, fr, t["dst"])
                self.typed(v, t["dst"][2])
                s2.write(root, proj, v)
                res.append((s2, "next", t["t"]))
            else:
                res.append((s2, kind, v))
        return res

    def fname(self, f):
        return f.get("rdef") or f["def"]

    def invoke(self, st, fr, f, args, t):
        """a resolved callee"""
        self.stats["calls"] += 1
        name = self.fname(f)
        for n in (name, f["def"]):
            c = self.contracts.get(n)
            if c is not None and n != self.top:
                return self.outcomes(c(self, st, fr, f, args, t), st)
        for n in (name, f["def"]):
            m = self.models.get(n)
            if m is not None:
                r = m(self, st, fr, f, args, t)
                if r is not None:
                    return self.outcomes(r, st)
        i = f.get("inst")
        if f.get("shim") == "closure" or (f.get("trait", "").startswith("core::ops::Fn") and args):
            # call through Fn*: second argument is the tuple of arguments
            return self.call_value(st, fr, args[0], list(self.tuple_items(args[1])), t)
        if i and i in self.p.insts:
            inst = self.p.insts[i]
            return self.exec_body(inst, inst["body"], args, st, fr.depth + 1)
        return self.unknown_call(st, fr, name, args, t, f)

    def unknown_call(self, st, fr, name, args, t, f):
        self.unknown.append((name, t["sp"]))
        self.emit(st, fr, "unknown", (mk("fn", name),) + tuple(args), t["sp"])
        st.ev[-1]
        v = fresh("ret:" + name.split("::")[-1])
        return [(st, "ret", v)]

    def tuple_items(self, v):
        if v.op == "tuple":
            return v.a[1]
        raise Unsupported("spread of " + show(v))

    def outcomes(self, r, st):
        if isinstance(r, T):
            return [(st, "ret", r)]
        return [x if len(x) == 3 else (x[0], "ret", x[1]) for x in r]

    def call_value(self, st, fr, f, args, t, direct=False):
        """call of a closure, fn item or function pointer value"""
        if f.op == "ref":
            root, proj, _ = self.deref(st, f)
            v = st.read(root, proj)
            if v.op in ("clo", "fnitem", "ref"):
                if v.op == "clo":
                    return self.call_closure(st, fr, v, f, args, t)
                return self.call_value(st, fr, v, args, t)
            f = v
        if f.op == "clo":
            return self.call_closure(st, fr, f, None, args, t)
        if f.op == "fnitem":
            fn = self._fns.get(f.a[1])
            if fn is None:
                raise Unsupported("fn item " + show(f))
            return self.invoke(st, fr, fn, list(args), t)
        h = self.models.get("$fnptr")
        if h:
            return self.outcomes(h(self, st, fr, f, args, t), st)
        self.emit(st, fr, "callptr", (f,) + tuple(args), t["sp"])
        return [(st, "ret", UNIT)]

    def call_closure(self, st, fr, clo, ref, args, t):
        key = clo.a[0]
        inst = self.p.insts.get(key)
        if inst is None:
            c = self.p.instances(key)
            if len(c) != 1:
                c = [i for i in c if i["inst"].split("@")[-1] == fr.inst["inst"].split("@")[-1]] or c
            if not c:
                raise Unsupported("closure body " + key)
            inst = c[0]
        body = inst["body"]
        first = self.p.ty(body["locals"][1])
        if first["k"] == "ref":
            if ref is None:
                root = mk("L", self.newfid(), 0)
                st = st.copy()
                st.heap[root] = clo
                ref = mk("ref", root, ())
            a0 = ref
        else:
            a0 = clo
        n = body["argc"] - 1
        if n != len(args):
            if n == 1 and len(args) != 1:
                args = [mk("tuple", tuple(str(i) for i in range(len(args))), tuple(args))]
            else:
                raise Unsupported("closure arity")
        return self.exec_body(inst, body, [a0] + list(args), st, fr.depth + 1)

    # ------------------------------------------------------------ loops
    def loop(self, fr, st, header, blocks):
        lid = (fr.fid, header)
        sp = fr.body["blocks"][header]["t"]["sp"]

        def body(s):
            return self.exec_blocks(fr, s, header, header, blocks)

        return self.summarise(fr, st, body, lid, sp)

    def diff(self, vo, vn, proj, out):
        if vo is vn:
            return
        if vo.op == vn.op and vo.op in ("struct", "tuple") and vo.a[:-1] == vn.a[:-1]:
            names = vo.a[1] if vo.op == "struct" else vo.a[0]
            for n, x, y in zip(names, vo.a[-1], vn.a[-1]):
                self.diff(x, y, proj + (mk("f", n),), out)
            return
        if vo.op == "variant" and vn.op == "variant" and vo.a[:4] == vn.a[:4]:
            for n, x, y in zip(vo.a[3], vo.a[4], vn.a[4]):
                self.diff(x, y, proj + (mk("v", vo.a[1]), mk("f", n)), out)
            return
        # updates on top of a common base
        keys, b = [], vn
        while b.op == "upd" and b is not vo:
            keys.append(b.a[1])
            b = b.a[0]
        ob, okeys = vo, []
        while ob.op == "upd" and ob is not b:
            okeys.append(ob.a[1])
            ob = ob.a[0]
        if b is ob and all(k.op == "f" for k in keys + okeys):
            for k in dict.fromkeys(keys + okeys):
                self.diff(select_f(vo, k.a[0]), select_f(vn, k.a[0]), proj + (k,), out)
            return
        out[proj] = True

    def summarise(self, fr, st, body, lid, sp):
        """closes a loop; body(state) -> [(state,'back',_) | (state,'exit',x) | other outcomes]"""
        self.stats["loops"] += 1
        if self.unroll:
            # (state, iterations so far)
            res, work, n = [], [(st, 1)], 0
            while work:
                s, k = work.pop()
                n += 1
                if k > self.unroll or n > 4 * self.unroll:
                    raise Unsupported("loop at " + sp + f" has no static bound ({k} iterations, {n} states)")
                for o in body(s):
                    if o[1] == "back":
                        work.append((o[0], k + 1))
                    else:
                        res.append(o)
            return res
        if self.cut is not None:
            r = self.cut(self, fr, st, body, lid, sp)
            if r is not None:
                return r
        M = {}
        roots0 = set(st.heap)
        memo_syms = {}

        def head(vals):
            s = st.copy()
            for (root, proj), v in vals.items():
                s.heap[root] = store(s.rd(root), proj, v, None)
            return s

        def val0(root, proj):
            v = st.rd(root)
            for e in proj:
                v = select_f(v, e.a[0]) if e.op == "f" else select_v(v, e.a[0]) if e.op == "v" else select_i(v, e.a[0], None)
            return v

        def cover(locs):
            """drops locations below others"""
            r = {}
            for l in sorted(locs, key=lambda x: len(x[1])):
                if not any(m[0] is l[0] and l[1][: len(m[1])] == m[1] for m in r):
                    r[l] = True
            return r

        for rnd in range(12):
            for l in M:
                if l not in memo_syms:
                    v0 = val0(*l)
                    lo = hi = None
                    if isint(v0):
                        lo, hi = None, None
                    memo_syms[l] = fresh("lv")
            h = head({l: memo_syms[l] for l in M})
            for l in M:
                v0 = val0(*l)
                if isint(v0):
                    RNG.setdefault(memo_syms[l], (None, None))
            outs = body(h)
            backs = [s for s, k, _ in outs if k == "back"]
            new = dict(M)
            for b in backs:
                for r in b.heap:
                    # places only ever reached inside the loop start from their unknown initial content
                    if r in roots0 or r.op == "obj":
                        d = {}
                        self.diff(h.rd(r), b.heap[r], (), d)
                        for proj in d:
                            new[(r, proj)] = True
            new = cover(new)
            if set(new) == set(M):
                break
            M = new
        else:
            raise Unsupported("loop does not stabilise at " + sp)

        if not backs:
            return [o for o in outs if o[1] != "back"]

        # locals of this frame that are written before being read in every iteration carry nothing over
        # -------- classify
        def nexts(l):
            return [b.read(*l) for b in backs]

        syms = {memo_syms[l]: l for l in M}
        k = fresh("k", 0, (1 << 62))
        kind, clo = {}, {}
        for l in M:
            v, v0, ns = memo_syms[l], val0(*l), nexts(l)
            kind[l] = ("other",)
            if all(n is v for n in ns):
                kind[l] = ("same",)
            elif isint(v0) or v in RNG:
                ds = {sub(n, v) if isint(n) or n.op in ("fld", "at", "sym", "init", "wrap") else None for n in ns}
                if len(ds) == 1:
                    d = ds.pop()
                    if d is not None and d.op == "int" and d.a[0] != 0:
                        kind[l] = ("ind", d.a[0])
                if kind[l][0] == "other" and all(n.op == "wrap" for n in ns if n is not v):
                    ds = {sub(n.a[1], v) if n.op == "wrap" else None for n in ns}
                    if len(ds) == 1:
                        d = ds.pop()
                        if d is not None and d.op == "int" and d.a[0] != 0:
                            kind[l] = ("ind", d.a[0])
        # arrays and flags are closed relative to the induction variables
        ind = {memo_syms[l]: add(val0(*l), mul(I(kd[1]), k)) for l, kd in kind.items() if kd[0] == "ind"}
        same = {memo_syms[l]: val0(*l) for l, kd in kind.items() if kd[0] == "same"}
        base = dict(ind)
        base.update(same)
        vals = {}
        for l, kd in kind.items():
            v = memo_syms[l]
            if kd[0] in ("ind", "same"):
                vals[l] = base[v]
        rest = [l for l in M if kind[l][0] == "other"]
        vals2 = {l: memo_syms[l] for l in rest}

        def rerun(extra):
            a = dict(vals)
            a.update(extra)
            h = head(a)
            h.facts = st.facts
            h.ev = ()
            return h, body(h)

        if rest:
            h, outs = rerun(vals2)
            backs = [s for s, kk, _ in outs if kk == "back"]
            changed = False
            for l in rest:
                v, v0 = memo_syms[l], val0(*l)
                ns = [b.read(*l) for b in backs]
                c = self.close_array(h, v, v0, ns, backs, k, set(syms))
                if c is None:
                    c = self.close_flag(h, v, v0, ns, backs, k, set(syms))
                if c is not None:
                    vals2[l] = c
                    kind[l] = ("closed",)
                    changed = True
                else:
                    x = fresh("lx")
                    if v in RNG:
                        RNG[x] = RNG[v]
                    vals2[l] = x
                    kind[l] = ("opaque", x, v0)
        h, outs = rerun(vals2)
        backs = [s for s, kk, _ in outs if kk == "back"]
        info = {}
        for l, kd in kind.items():
            if kd[0] == "opaque":
                info[kd[1]] = (kd[2], [b.read(*l) for b in backs], k)
        nf = len(st.facts.items)
        paths = []
        for b in backs:
            paths.append((tuple(f for f in b.facts.items if f not in st.facts.set), b.ev))
        if info:
            self.loopinfo[k] = info
        res = []
        for s, kk, x in outs:
            if kk == "back":
                continue
            s = s.copy()
            if any(p[1] for p in paths):
                le_ = LoopEv(k, k, paths, sp, fr.inst["path"] if fr else "?")
                s.ev = st.ev + (le_,) + s.ev
            else:
                s.ev = st.ev + s.ev
            if info:
                s.tr = s.tr + (("loopinfo", k, tuple(info)),)
            q = self.forall(k, paths)
            if q is not None:
                f = s.facts.add(q)
                if f is None:
                    continue
                s.facts = f
            res.extend(self.solve_count(st, s, kk, x, k, paths))
        return res

    def forall(self, k, paths):
        """for all j < k, one of the continuing paths' facts held"""
        ps = []
        for facts, _ in paths:
            c = tuple(f for f in facts)
            if not c:
                return None
            ps.append(mk("all", *sorted(c, key=lambda x: x.id)))
        j = fresh("j", 0, 1 << 62)
        m = {k: j}
        return mk("forall", k, mk("bind", j), *[subst(p, m, {}) for p in sorted(set(ps), key=lambda x: x.id)])

    def close_array(self, h, v, v0, ns, backs, k, syms):
        """next = v with one element written per iteration, at a position that moves with k"""
        upds = []
        for n in ns:
            chain, b = [], n
            while b.op == "upd" and b.a[1].op == "i":
                chain.append((b.a[1].a[0], b.a[2]))
                b = b.a[0]
            if b is not v or not chain:
                return None
            upds.append(tuple(chain))
        if len(set(upds)) != 1:
            return None
        res = v0
        ch = upds[0]
        if len(ch) != 1:
            return None
        key, val = ch[0]
        s = sub(key, k)
        if mentions(s, syms | {k}):
            return None
        # a read of the element about to be written sees the value before the loop
        val = subst(val, {mk("at", v, key): select_i(v0, key, None)})
        # reads past the written range see the value before the loop
        hits = []
        walk(val, lambda x: hits.append(x) if x.op == "at" and x.a[0] is v else None)
        for x in hits:
            d = h.facts.decide(lt(x.a[1], key)) if isint(x.a[1]) else None
            if d is False:
                val = subst(val, {x: select_i(v0, x.a[1], None)})
        if mentions(val, syms):
            return None
        j = fresh("j", 0, None)
        RNG[j] = (0, 1 << 62)
        return mk("updall", v0, j, k, subst(key, {k: j}), subst(val, {k: j}))

    def close_flag(self, h, v, v0, ns, backs, k, syms):
        """a variable some paths set to a constant and the others leave alone"""
        if v0.op not in ("bool",):
            return None
        consts = {n for n in ns if n is not v}
        if len(consts) != 1:
            return None
        c = consts.pop()
        if c.op != "bool" or c is v0:
            return None
        alts = []
        for n, b in zip(ns, backs):
            if n is v:
                continue
            fs = tuple(f for f in b.facts.items if f not in h.facts.set)
            if any(mentions(f, syms) for f in fs):
                return None
            alts.append(mk("all", *sorted(fs, key=lambda x: x.id)))
        j = fresh("j", 0, 1 << 62)
        e = mk("exists", k, mk("bind", j), *[subst(x, {k: j}, {}) for x in sorted(set(alts), key=lambda x: x.id)])
        return e if c is TRUE else NOT(e)

    def solve_count(self, st0, s, kk, x, k, paths):
        """at the exit that negates the loop condition the iteration count is known exactly"""
        common = None
        for facts, _ in paths:
            fs = set(facts)
            common = fs if common is None else common & fs
        for f in s.facts.items:
            if f in st0.facts.set or f.op not in ("ge0", "not", "eq0"):
                continue
            n = NOT(f)
            if n.op == "ge0" and n in (common or ()):
                p = poly(n.a[0])
                c = p.get((k,))
                if c == -1 and not any(k in m and m != (k,) for m in p):
                    q = frompoly(padd(p, {(k,): 1}))
                    sol = add(q, I(1))
                    out = []
                    d = st0.facts.decide(ge0(sol))
                    if d is not False:
                        s2 = self.subst_state(s, {k: sol}, st0)
                        if s2 is not None and d is None:
                            s2 = s2.assume(ge0(sol))
                        if s2 is not None:
                            out.append((s2, kk, x))
                    if d is not True:
                        s3 = self.subst_state(s, {k: I(0)}, st0)
                        if s3 is not None:
                            s3 = s3.assume(NOT(ge0(sol)))
                        if s3 is not None:
                            out.append((s3, kk, x))
                    return out
        return [(s, kk, x)]

    def subst_state(self, s, m, st0):
        memo = {}
        s2 = St({}, None, s.ev, s.tr)
        for r, v in s.heap.items():
            s2.heap[subst(r, m, memo)] = subst(v, m, memo)
        f = st0.facts
        for c in s.facts.items:
            if c in st0.facts.set:
                continue
            f = f.add(subst(c, m, memo))
            if f is None:
                return None
        s2.facts = f
        n0 = len(st0.ev)
        s2.ev = st0.ev + tuple(subst_ev(e, m, memo) for e in s.ev[n0:])
        return s2


def subst_ev(e, m, memo):
    if isinstance(e, LoopEv):
        n = LoopEv(e.k, subst(e.count, m, memo), e.paths, e.sp, e.fn)
        if any(x is not e.k for x in m):
            m2 = {a: b for a, b in m.items() if a is not e.k}
            n.paths = [
                (tuple(subst(f, m2, {}) for f in fs), tuple(subst_ev(y, m2, {}) for y in evs)) for fs, evs in e.paths
            ]
        return n
    return Ev(e.name, tuple(subst(x, m, memo) for x in e.a), e.heap, e.facts, e.sp, e.fn)
