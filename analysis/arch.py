"""Archetypes and registries as abstract states: component columns are blocks of equal-sized elements addressed by row;
sizes, alignments, rows, counts and capacities are symbolic."""

from world import *
from engine import ELEM, RAW, Fault, Misaligned, poff, mkref, rawidx, divide
from terms import findmodel, ptrkind

AM = {}
ARCH = "crate::archetype::Archetype"
MAXR = (1 << 24) - 1  # rows per archetype
CAPN = 14
I4 = I_(4)
DANG = mk("dangling", I4)


def amodel(*names):
    def d(f):
        for n in names:
            AM[n] = f
        return f

    return d


def structv(cr, path, vals):
    a = cr.p.adts.get(path)
    if a is None or a["enum"]:
        raise Missing(path)
    names = [f[0] for f in a["variants"][0]["fields"]]
    if set(names) != set(vals):
        raise Unsupported(f"{path} has the fields {names}")
    return mk("struct", path, tuple(names), tuple(vals[n] for n in names))


def zptr(t):
    return poff(NULL, t.align)


def zval(t):
    return mk("init", mk("obj", zptr(t)))


def blk(base):
    return mk("blk", base)


def isblock(p):
    return p.op in RAW or p.op == "poff" and p.a[0].op in RAW


def baseoff(p):
    return (p, I_(0)) if p.op in RAW else p.a


def feasible(st):
    return findmodel(st.facts.items) is not None


def refuted(st, cond):
    """some input on this path makes cond false"""
    if cond is TRUE:
        return False
    return findmodel(list(st.facts.items) + [NOT(cond)]) is not None


def must(st, cond, msg):
    if st.facts.settle(cond) is True:
        return
    if refuted(st, cond):
        raise Fault(msg)
    raise Unsupported("cannot decide " + show(cond) + ": " + msg)


def distinct(st, a, b, d=0):
    """a and b differ for some input on this path (None: not known)"""
    if a is b or d > 6:
        return None
    if isint(a) and isint(b):
        return refuted(st, eqi(a, b)) or None
    if a.op == "bool" and b.op == "bool":
        return feasible(st) or None
    if a.op in ("ge0", "eq0", "not", "and", "or") and b.op == "bool":
        return refuted(st, a if b is TRUE else NOT(a)) or None
    if a.op == "variant" and b.op == "variant":
        if a.a[1] != b.a[1]:
            return feasible(st) or None
        return any(distinct(st, x, y, d + 1) for x, y in zip(a.a[4], b.a[4])) or None
    if a.op in ("struct", "tuple") and a.op == b.op:
        if len(a.a[-1]) != len(b.a[-1]):
            return feasible(st) or None
        return any(distinct(st, x, y, d + 1) for x, y in zip(a.a[-1], b.a[-1])) or None
    if isblock(a) and isblock(b):
        (p, i), (q, j) = baseoff(a), baseoff(b)
        if p is not q:
            return feasible(st) or None
        return distinct(st, i, j, d + 1)
    if ptrkind(a) and ptrkind(b) and ptrkind(a) != ptrkind(b):
        return feasible(st) or None
    if a.op == "fat" and b.op == "fat":
        if a.a[0] is not b.a[0] and all(x.a[0].op == "obj" and x.a[0].a[0].op in RAW + ("addr", "dangling", "poff") for x in (a, b)):
            return feasible(st) or None
        return distinct(st, a.a[2], b.a[2], d + 1) or distinct(st, a.a[3], b.a[3], d + 1)
    if a.op == "partial" or b.op == "partial":
        return mixed(st, a, b, d) if a.op == "partial" else mixed(st, b, a, d)
    k1, k2 = vkind(a), vkind(b)
    if k1 and k2:
        if k1[0] is k2[0] and k1[1] is not None and k2[1] is not None:
            return distinct(st, k1[1], k2[1], d + 1)
        return feasible(st) or None
    if a.op == "upd" or b.op == "upd":
        ks = updkeys(a, b)
        return any(differing(st, a, b, k, d) for k in ks or ()) or None
    for x, y in ((a, b), (b, a)):
        # whatever a row held before, against a value made of other inputs
        if vkind(x) and x.op == "at" and y.op == "struct":
            return feasible(st) or None
    return None


def differing(st, a, b, k, d):
    for s, x in split(st, lambda y: selkey(a, k, y.facts)):
        for s2, z in split(s, lambda y: selkey(b, k, y.facts)):
            if distinct(s2, x, z, d + 1):
                return True
    return False


def vkind(v):
    """where an opaque component value comes from: (source, row)"""
    if v.op == "param" and str(v.a[1]).startswith("value:"):
        return v, None
    if v.op == "init" and v.a[0].op == "obj" and v.a[0].a[0].op in RAW + ("poff", "addr"):
        return v, None
    if v.op == "at" and v.a[0].op == "init" and v.a[0].a[0].op == "obj" and v.a[0].a[0].a[0].op in RAW:
        return v.a[0], v.a[1]
    return None


def split(st, f, depth=0):
    """[(state, value)] of a reading function that may need case splits"""
    if depth > 14:
        raise Unsupported("too many cases")
    try:
        return [(st, f(st))]
    except Infeasible:
        return []
    except NeedFork as e:
        r = []
        for c in (e.cond, NOT(e.cond)):
            s = st.assume(c)
            if s is not None:
                r += split(s, f, depth + 1)
        return r


# ---------------------------------------------------------------- raw memory
def touch(eng, st, base, i, n):
    w = eng.world
    if i is None or base.op not in RAW:
        # null, dangling and address-like pointers: only values of size zero may live there
        if n is I_(0):
            return
        if any(base is zptr(t) for t in w.types if t.size is I_(0)):
            return
        if base.op in ("addr", "dangling") or base.op == "poff" and base.a[0].op == "addr":
            must(st, eqi(n, I_(0)), "access through a null or dangling pointer")
            return
        raise Unsupported("access through " + show(base))
    info = st.heap.get(blk(base))
    k = ELEM.get(base)
    if info is None or k is None:
        raise Unsupported("access to an unknown block " + show(base))
    rows = divide(info.a[0], k)
    if rows is None:
        raise Unsupported("block of " + show(info.a[0]) + " bytes")
    if info.a[2] is FALSE:
        must(st, eqi(n, I_(0)), "use of freed memory")
        return
    must(st, AND(ge0(i), le(add(i, n), rows)), "access outside of an allocated block")


def inelement(base, off, k):
    """(index, remaining byte offset) of an offset in a block of elements of k bytes"""
    whole, rest = {}, {}
    for m, c in poly(off).items():
        x = divide(frompoly({m: c}), k)
        (rest if x is None else whole)[m] = c
    i = divide(frompoly(whole), k)
    r = frompoly(rest)
    if r.op != "int" or r.a[0] < 0:
        raise Misaligned(base, off, k)
    return i, r


def rdpart(st, root, proj, part):
    """the bytes of a part of the value at a place: mk("bytes", value, first, count)"""
    v = st.read(root, proj)
    if part is None:
        return v
    r, n, k = part
    if v.op == "partial":
        # made of bytes of several values
        raise Unsupported("bytes of a partly overwritten value")
    return mk("bytes", v, r, n)


def wrpart(st, root, proj, part, x):
    if part is not None:
        r, n, k = part
        x = mk("partial", st.read(root, proj), r, n, k, x)
    st.write(root, proj, x)


def mixed(st, a, b, d):
    """a value of which some bytes were overwritten once, against a whole value"""
    old, r, n, k, new = a.a
    if new.op != "bytes" or not vkind(old) or not vkind(new.a[0]) or not vkind(b):
        return None
    short = refuted(st, eqi(n, k))
    if not short:
        return None
    for y in (old, new.a[0]):
        if y is not b and distinct(st, y, b, d + 1):
            return True
    return None


def place(eng, st, p, bytes_):
    """the cell(s) at p holding bytes_: (root, proj, None) for one value or (root, first, count) for a range"""
    if isblock(p):
        base, off = baseoff(p)
        k = ELEM.get(base)
        if k is None:
            raise Unsupported("copy from or to " + show(p))
        i, r = inelement(base, off, k)
        if r is I_(0):
            if bytes_ is k or st.facts.settle(eqi(bytes_, k)) is True:
                touch(eng, st, base, i, I_(1))
                return mk("obj", base), (mk("i", i),), None
            m = divide(bytes_, k)
            if m is not None:
                touch(eng, st, base, i, m)
                return mk("obj", base), i, m
        d = st.facts.settle(le(add(r, bytes_), k))
        if d is None:
            raise NeedFork(le(add(r, bytes_), k))
        if d is False:
            must(st, FALSE, "copy past the end of the value")
        touch(eng, st, base, i, I_(1))
        return mk("obj", base), (mk("i", i),), (r, bytes_, k)
    if p.op in ("addr", "dangling") or p.op == "poff" and p.a[0].op == "addr":
        must(st, eqi(bytes_, I_(0)), "access through a null or dangling pointer")
        raise Unsupported("copy of nothing")
    root, proj, _ = eng.deref(st, p)
    v = st.read(root, proj)
    k = eng.world.valsize(v)
    if k is not None:
        if st.facts.settle(eqi(bytes_, k)) is True:
            return root, proj, None
        d = st.facts.settle(le(bytes_, k))
        if d is None:
            raise NeedFork(le(bytes_, k))
        if d is False:
            must(st, FALSE, "copy past the end of the value")
        return root, proj, (I_(0), bytes_, k)
    elif bytes_.op == "int" or k is None:
        raise Unsupported("copy of " + show(v))
    return root, proj, None


def nonempty(st, n):
    """False when nothing is copied, True when something is; forks in between"""
    d = st.facts.settle(eqi(n, I_(0)))
    if d is None:
        raise NeedFork(eqi(n, I_(0)))
    return not d


def single(m):
    """a whole value or a part of one"""
    return m is None or type(m) is tuple


def docopy(eng, st, fr, src, dst, n, k, overlap=False):
    bytes_ = mul(n, k)
    if not nonempty(st, bytes_):
        return
    sr, sp_, sm = place(eng, st, src, bytes_)
    dr, dp, dm = place(eng, st, dst, bytes_)
    if sr is dr and not overlap:
        if single(sm) and single(dm):
            if sp_ == dp:
                must(st, FALSE, "overlapping copy")
            if len(sp_) == len(dp) == 1 and st.facts.settle(eqi(sp_[0].a[0], dp[0].a[0])) is None:
                raise NeedFork(eqi(sp_[0].a[0], dp[0].a[0]))
            if len(sp_) == len(dp) == 1 and st.facts.settle(eqi(sp_[0].a[0], dp[0].a[0])) is True:
                must(st, FALSE, "overlapping copy")
        else:
            raise Unsupported("copy within a block")
    if single(sm) and single(dm):
        wrpart(st, dr, dp, dm, rdpart(st, sr, sp_, sm))
    elif not single(sm) and not single(dm):
        st.heap[dr] = mk("win", st.rd(dr), st.rd(sr), sp_, dp, dm)
    else:
        raise Unsupported("copy between a block and a value")


AM["$copy"] = docopy


def esize(eng, f):
    return eng.sizeof(targ(eng, f))


@amodel("core::ptr::copy_nonoverlapping")
def c_no(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[0], args[1], args[2], esize(eng, f))
    return [(st, "ret", UNIT)]


@amodel("core::ptr::copy")
def c_ov(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[0], args[1], args[2], esize(eng, f), True)
    return [(st, "ret", UNIT)]


@amodel("core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping")
def c_from(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[1], args[0], args[2], esize(eng, f))
    return [(st, "ret", UNIT)]


@amodel("core::ptr::mut_ptr::<impl *mut T>::copy_from")
def c_from2(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[1], args[0], args[2], esize(eng, f), True)
    return [(st, "ret", UNIT)]


@amodel("core::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping", "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping")
def c_to(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[0], args[1], args[2], esize(eng, f))
    return [(st, "ret", UNIT)]


@amodel("core::ptr::mut_ptr::<impl *mut T>::copy_to", "core::ptr::const_ptr::<impl *const T>::copy_to")
def c_to2(eng, st, fr, f, args, t):
    docopy(eng, st, fr, args[0], args[1], args[2], esize(eng, f), True)
    return [(st, "ret", UNIT)]


def doswap(eng, st, p, q, bytes_, overlap):
    if not nonempty(st, bytes_):
        return
    r1, p1, m1 = place(eng, st, p, bytes_)
    r2, p2, m2 = place(eng, st, q, bytes_)
    if not single(m1) or not single(m2):
        raise Unsupported("swap of ranges")
    if r1 is r2 and len(p1) == len(p2) == 1 and p1[0].op == "i":
        c = eqi(p1[0].a[0], p2[0].a[0])
        d = st.facts.settle(c)
        if d is None:
            raise NeedFork(c)
        if d and not overlap:
            must(st, FALSE, "swap of a value with itself")
    x, y = rdpart(st, r1, p1, m1), rdpart(st, r2, p2, m2)
    wrpart(st, r1, p1, m1, y)
    wrpart(st, r2, p2, m2, x)


@amodel("core::ptr::swap_nonoverlapping")
def s_no(eng, st, fr, f, args, t):
    doswap(eng, st, args[0], args[1], mul(args[2], esize(eng, f)), False)
    return [(st, "ret", UNIT)]


@amodel("core::ptr::swap", "core::ptr::mut_ptr::<impl *mut T>::swap")
def s_ov(eng, st, fr, f, args, t):
    doswap(eng, st, args[0], args[1], esize(eng, f), True)
    return [(st, "ret", UNIT)]


def newblock(eng, st, size, align):
    w = eng.world
    base = mk("alloc", fresh("mem"), size, align)
    k = w.byalign.get(align)
    if k is not None and divide(size, k[0]) is not None:
        ELEM[base] = k[0]
        w.colty[base] = k[1]
    st.heap[blk(base)] = mk("blk", size, align, TRUE)
    return base


@amodel("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def a_alloc(eng, st, fr, f, args, t):
    size, align = select_f(args[0], "size"), select_f(args[0], "align")
    must(st, ge0(sub(size, I_(1))), "allocation of zero bytes")
    out = []
    if eng.world.oom:
        s = st.copy()
        eng.emit(s, fr, "oom", (), t["sp"])
        out.append((s, "ret", NULL))
    s = st.copy()
    b = newblock(eng, s, size, align)
    eng.emit(s, fr, "alloc", (b, size, align), t["sp"])
    return out + [(s, "ret", b)]


def owned(eng, st, p, lay, what):
    """p is a live block allocated with this layout"""
    size, align = select_f(lay, "size"), select_f(lay, "align")
    if p.op not in RAW:
        if isblock(p) or ptrkind(p):
            must(st, FALSE, what + " of a pointer that is not an allocated block")
        raise Unsupported(what + " of " + show(p))
    info = st.heap.get(blk(p))
    if info is None:
        raise Unsupported(what + " of " + show(p))
    if info.a[2] is FALSE:
        must(st, FALSE, what + " of freed memory")
    must(st, eqi(size, info.a[0]), what + " with a different size than was allocated")
    must(st, eqi(align, info.a[1]), what + " with a different alignment than was allocated")
    return info


@amodel("alloc::alloc::realloc")
def a_realloc(eng, st, fr, f, args, t):
    p, lay, n = args
    info = owned(eng, st, p, lay, "reallocation")
    must(st, ge0(sub(n, I_(1))), "reallocation to zero bytes")
    out = []
    if eng.world.oom:
        s = st.copy()
        eng.emit(s, fr, "oom", (), t["sp"])
        out.append((s, "ret", NULL))
    s = st.copy()
    b = newblock(eng, s, n, info.a[1])
    s.heap[mk("obj", b)] = s.rd(mk("obj", p))
    s.heap[blk(p)] = mk("blk", info.a[0], info.a[1], FALSE)
    eng.emit(s, fr, "realloc", (b, p, n), t["sp"])
    return out + [(s, "ret", b)]


@amodel("alloc::alloc::dealloc")
def a_dealloc(eng, st, fr, f, args, t):
    p, lay = args
    info = owned(eng, st, p, lay, "deallocation")
    s = st.copy()
    s.heap[blk(p)] = mk("blk", info.a[0], info.a[1], FALSE)
    eng.emit(s, fr, "dealloc", (p,), t["sp"])
    return [(s, "ret", UNIT)]


@amodel("core::ptr::drop_in_place", "core::ptr::mut_ptr::<impl *mut T>::drop_in_place")
def a_dip(eng, st, fr, f, args, t):
    st = st.copy()
    p = args[0]
    if p.op == "fat":
        raise Unsupported("drop of a slice")
    root, proj, _ = eng.deref(st, p)
    eng.emit(st, fr, "drop", (mk("ty", eng.p.tystr(targ(eng, f))), st.read(root, proj), p), t["sp"])
    return [(st, "ret", UNIT)]


@amodel("$fnptr")
def a_fnptr(eng, st, fr, f, args, t):
    """the destructor stored in a component's descriptor (its own rule shows that it drops n consecutive components once each)"""
    if f.op != "dropfn" or len(args) != 2:
        raise Unsupported("call of " + show(f))
    w = eng.world
    name, (p, n) = f.a[0], args
    ty = [x for x in w.types if x.name == name][0]
    if not nonempty(st, n):
        return [(st, "ret", UNIT)]
    s = st.copy()
    if isblock(p):
        base, off = baseoff(p)
        if w.colty.get(base) != name:
            must(st, FALSE, f"destructor of another type applied to a column of {w.colty.get(base)}")
        i = rawidx(base, off)
        touch(eng, s, base, i, n)
        eng.emit(s, fr, "dropcol", (mk("str", name), base, i, n), t["sp"])
    elif ty.size is I_(0) and p is zptr(ty):
        eng.emit(s, fr, "dropcol", (mk("str", name), p, I_(0), n), t["sp"])
    elif ptrkind(p):
        must(st, FALSE, "destructor applied to a wrong address")
    else:
        root, proj, _ = eng.deref(s, p)
        if n is not I_(1):
            raise Unsupported("destructor applied to " + show(p))
        eng.emit(s, fr, "drop", (mk("ty", name), s.read(root, proj), p), t["sp"])
    return [(s, "ret", UNIT)]


@amodel("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def a_getu(eng, st, fr, f, args, t):
    v = args[0]
    if v.op == "ref":
        raise Unsupported("get_unchecked on thin " + show(v))
    v = eng.asfat(v)
    if args[1].op == "struct":
        outs = models.index_slice(eng, st, fr, v, args[1], t)
        for s, k, x in outs:
            if k != "ret":
                must(s, FALSE, "unchecked range outside of a slice")
        return [o for o in outs if o[1] == "ret"]
    must(st, lt(args[1], v.a[3]), "unchecked index outside of a slice")
    return elem(v, args[1])


@amodel("core::slice::<impl [T]>::split_at_unchecked", "core::slice::<impl [T]>::split_at_mut_unchecked")
def a_split(eng, st, fr, f, args, t):
    must(st, le(args[1], eng.asfat(args[0]).a[3]), "unchecked split outside of a slice")
    return [o for o in models.sl_split(eng, st, fr, f, args, t) if o[1] == "ret"]


# ---------------------------------------------------------------- groups
GP = "crate::descriptors::component_group::ComponentGroup::"


def gtys(eng, f):
    b = eng.bind.get(eng.p.tystr(targ(eng, f)))
    if not b or "group" not in b:
        raise Unsupported("group " + eng.p.tystr(targ(eng, f)))
    return b["group"]


def tup(l):
    l = tuple(l)
    return mk("tuple", tuple(str(k) for k in range(len(l))), l)


def gptrs(eng, st, v):
    root, proj, sl = eng.deref(st, v)
    x = st.read(root, proj)
    return x


@amodel(GP + "as_sorted_pointers")
def g_asp(eng, st, fr, f, args, t):
    st = st.copy()
    ts = gtys(eng, f)
    sr, sp_, _ = eng.deref(st, args[0])
    v = st.read(sr, sp_)
    if v.op != "tuple":
        raise Unsupported("group value " + show(v))
    ar, ap, _ = eng.deref(st, args[1])
    for k, ty in enumerate(ts):
        st.write(ar, ap + (mk("i", I_(k)),), mkref(sr, sp_ + (mk("f", str(k)),)))
    return [(st, "ret", UNIT)]


def gget(eng, st, f, v):
    ts = gtys(eng, f)
    x = gptrs(eng, st, v)
    return ts, [select_i(x, I_(k), None) for k in range(len(ts))]


@amodel(GP + "read_from_sorted_pointers")
def g_read(eng, st, fr, f, args, t):
    ts, ps = gget(eng, st, f, args[0])
    r = []
    for ty, p in zip(ts, ps):
        root, proj, _ = eng.deref(st, p)
        r.append(st.read(root, proj))
    return tup(r)


@amodel(GP + "pointers_as_ref_tuple", GP + "pointers_as_mut_ref_tuple")
def g_refs(eng, st, fr, f, args, t):
    ts, ps = gget(eng, st, f, args[0])
    for p in ps:
        eng.deref(st, p)
    return tup(ps)


@amodel(GP + "slice_unchecked", GP + "slice_unchecked_mut")
def g_slices(eng, st, fr, f, args, t):
    ts, ps = gget(eng, st, f, args[0])
    r = []
    for ty, p in zip(ts, ps):
        if isblock(p):
            base, off = baseoff(p)
            i = rawidx(base, off)
            touch(eng, st, base, i, args[1])
            r.append(mk("fat", mk("obj", base), (mk("s", ELEM[base]),), i, args[1]))
        else:
            touch(eng, st, p, None, args[1])
            r.append(mk("fat", mk("obj", p), (), I_(0), args[1]))
    return tup(r)


@amodel(GP + "empty_slice", GP + "empty_slice_mut")
def g_empty(eng, st, fr, f, args, t):
    return tup(mk("fat", mk("obj", DANG), (), I_(0), I_(0)) for _ in gtys(eng, f))


# ---------------------------------------------------------------- the world
class AWorld(World):
    def __init__(self, sp, cr, types):
        ELEM.clear()
        super().__init__(sp, cr, AM)
        self.types = types
        self.colty = {}
        self.byalign = {I4: (I4, "entities")}
        for t in types:
            if t.size is not I_(0):
                self.byalign[t.align] = (t.size, t.name)
        self.oom = False
        self.vals = {}
        self.descs = {}

    def engine(self, bind=None):
        e = super().engine(bind)
        e.touch = lambda st, b, i, n: touch(e, st, b, i, n)
        w = self

        def misaligned(x, st):
            off = NOT(eq0(mk("rem", 64, x.off, x.size)))
            if findmodel(list(st.facts.items) + [ge0(x.off), ge0(sub(x.size, I_(2))), off]) is None:
                return None
            return [(st, "panic", ("memory: access at an offset that is not a row of the column",) + e.where)]

        e.misaligned = misaligned
        return e

    def value(self, t, tag="new"):
        """an arbitrary value of a component type"""
        if t.size is I_(0):
            return zval(t)
        v = param(f"value:{t.name}:{tag}")
        self.vals[v] = t
        return v

    def valsize(self, v):
        if v in self.vals:
            return self.vals[v].size
        if v.op == "at" and v.a[0].op == "init" and v.a[0].a[0].op == "obj":
            return ELEM.get(v.a[0].a[0].a[0])
        return None

    def cbind(self, t, name="C"):
        cid = self.one("ComponentTypeId", "from_u16", S(), [t.id])
        d = self.cdesc(t, None)
        return {name: {"size": t.size, "align": t.align, "Component::ID": cid, "Component::DESCRIPTOR": d}}

    def gbind(self, ts, st, name="G"):
        """binding of a group parameter to the (sorted) types; ts None: an invalid group"""
        if ts is None:
            return {name: {"group": [], "ComponentGroup::DESCRIPTOR": self.invalid("ComponentGroupDescriptor")}}
        s = st.copy()
        r = cell(s, "gdescs", mk("arr", *[self.cdesc(t, s) for t in ts]))
        outs = [o for o in self.run("ComponentGroupDescriptor", "new", s, [r], {"N": I_(len(ts))}) if o[1] == "ret"]
        outs = [o for o in outs if self.truthv("ComponentGroupDescriptor", "is_valid", o[0], o[2]) is True]
        c = [o for o in outs if not allground(self, o)] or outs
        if len(c) != 1:
            raise Unsupported(f"group descriptor has {len(c)} forms")
        for x in c[0][0].facts.items:
            if x not in st.facts.set:
                st.facts = st.facts.add(x)
        return {name: {"group": list(ts), "ComponentGroup::DESCRIPTOR": c[0][2]}}

    def truthv(self, ty, name, st, v):
        s = st.copy()
        r = cell(s, "tv", v)
        return self.sp.truth(self.cr, ty, name, s, [r], eng=self.engine())

    def desc_of(self, ts, st):
        key = tuple(t.name for t in ts)
        if key not in self.descs:
            n0 = len(st.facts.items)
            v = self.adesc([self.cdesc(t, st) for t in ts], st)
            self.descs[key] = (v, st.facts.items[n0:])
        v, fs = self.descs[key]
        for f in fs:
            st.facts = st.facts.add(f)
        return v


    def desc_forms(self, ts, st):
        """[(state, descriptor)]: every form the descriptor of the types can have, with the state where it has it"""
        ds = [self.cdesc(t, st) for t in ts]
        arr = mk("arr", *(ds + [self.invalid("ComponentDescriptor")] * (CAPN - len(ds))))
        s0 = st.copy()
        r = cell(s0, "descs", arr)
        res = []
        for s, k, v in self.run("ArchetypeDescriptor", "compute_archetype_id", s0, [mk("fat", mk("obj", r), (), I_(0), I_(len(ds)))]):
            if k != "ret":
                raise Unsupported("archetype id")
            s2 = st.copy()
            s2.facts = s.facts
            res.append((s2, self.one("ArchetypeDescriptor", "new", s2, [v, I_(len(ds)), arr])))
        return res


def allground(w, o):
    """the group whose id is the reserved hash value"""
    v = select_f(o[2], "archetype")
    return ground(select_f(v, "archetype_id"))


class Arch:
    """one archetype: its types, columns and the current symbolic count and capacity"""

    def __init__(self, w, st, name, ts, cap=None, cnt=None):
        self.w, self.name, self.ts = w, name, ts
        zero = cap is not None and cap is I_(0)
        self.cap = cap if cap is not None else param("cap:" + name, 1, MAXR)
        self.cnt = cnt if cnt is not None else (I_(0) if zero else param("len:" + name, 0, MAXR))
        if not zero:
            st.facts = st.facts.add(le(self.cnt, self.cap))
        self.ents = mk("mem", name, "entities") if not zero else DANG
        self.bases = []
        for t in ts:
            b = mk("mem", name, t.name) if t.size is not I_(0) and not zero else zptr(t)
            self.bases.append(b)
            if b.op == "mem":
                ELEM[b] = t.size
                w.colty[b] = t.name
                st.heap[blk(b)] = mk("blk", mul(t.size, self.cap), t.align, TRUE)
        if not zero:
            ELEM[self.ents] = I4
            w.colty[self.ents] = "entities"
            st.heap[blk(self.ents)] = mk("blk", mul(I4, self.cap), I4, TRUE)
        self.desc = w.desc_of(ts, st)
        self.val = structv(
            w.cr,
            ARCH,
            {
                "descriptor": self.desc,
                "pointers": mk("arr", *(self.bases + [NULL] * (CAPN - len(ts)))),
                "entity_associations": self.ents,
                "entity_count": self.cnt,
                "capacity": self.cap,
            },
        )

    def old(self, j, q):
        """the component of type j that was in row q before the operation"""
        t = self.ts[j]
        if t.size is I_(0):
            return zval(t)
        return mk("at", mk("init", mk("obj", self.bases[j])), q)

    def oldent(self, q):
        return mk("at", mk("init", mk("obj", self.ents)), q)


def acol(a, j):
    return select_i(select_f(a, "pointers"), I_(j), None)


def content(w, st, a, j, t, q):
    """the component in column j, row q of archetype value a"""
    p = acol(a, j)
    if t.size is I_(0):
        return zval(t) if p is zptr(t) else mk("init", mk("obj", p))
    if not isblock(p):
        return mk("init", mk("obj", p))
    base, off = baseoff(p)
    if ELEM.get(base) is None:
        raise Unsupported("column " + show(p))
    return st.read(mk("obj", base), (mk("i", add(rawidx(base, off), q)),))


def entcontent(st, a, q):
    p = select_f(a, "entity_associations")
    if not isblock(p):
        return mk("init", mk("obj", p))
    return st.read(mk("obj", p), (mk("i", q),))


def agree(sp, st, got, want, what, why=""):
    """three-valued comparison: equal, definitely different, or not known"""
    if same(st, got, want):
        return sp.check(True, what)
    if distinct(st, got, want):
        return sp.check(False, what, f"{show(got)[:160]} instead of {show(want)[:160]}; {why}; when {facts_str(st)}"[:900])
    sp.undecided(what, f"{show(got)[:200]} against {show(want)[:200]}")
    return False


def true(sp, st, cond, what, why=""):
    d = st.facts.settle(cond)
    if d is True:
        return sp.check(True, what)
    if refuted(st, cond):
        return sp.check(False, what, f"{why}; when {facts_str(st)}"[:900])
    sp.undecided(what, show(cond)[:300])
    return False


def unchanged(sp, st, got, want, what, why=""):
    """got is the value want, possibly written back piece by piece"""
    return agree(sp, st, got, want, what, why)


def never(sp, st, what, why=""):
    """no input reaches this point"""
    if feasible(st):
        return sp.check(False, what, f"{why}; when {facts_str(st)}"[:900])
    sp.undecided(what, f"{why}; {facts_str(st)}"[:300])
    return False


def verdict(sp, st, d, want, what, why=""):
    """d: what was found out (True, False or None for not known)"""
    if d is want:
        return sp.check(True, what)
    if d is None:
        sp.undecided(what, why[:300])
        return False
    return never(sp, st, what, why)


def observes(sp, cr, ty, name, st, args, want, what, trait="", **kw):
    """a boolean observer answers want on every path"""
    good = True
    for s, k, v in sp.run(cr, cr.fn(ty, name, trait), st, args, **kw):
        if k != "ret":
            good = never(sp, s, what, f"{name} panics: {v}") and good
        else:
            good = true(sp, s, v if want else NOT(v), what, f"{name} gives {show(v)[:200]}") and good
    return good


def returns(sp, outs, what="never panics and accesses memory correctly", allow=()):
    """the returning outcomes of an analysed call"""
    r = []
    for s, k, v in outs:
        if k == "ret":
            r.append((s, v))
        elif isinstance(v, tuple) and v[0].startswith("memory: "):
            sp.check(False, what, f"{v[0]} at {v[1]} in {v[2]} when {facts_str(s)}", sp=v[1])
        elif feasible(s):
            sp.check(False, what, f"{v[0]} at {v[1]} in {v[2]} when {facts_str(s)}", sp=v[1])
        else:
            sp.undecided(what, f"{v} when {facts_str(s)}")
    if r:
        sp.check(True, what + " (has a returning path)")
    return r


def storage(sp, w, st, a, ts, what, blocks=()):
    """the storage invariant: room for the counted rows, one live block per column with the layout of its type, nothing leaked"""
    cnt, cap = select_f(a, "entity_count"), select_f(a, "capacity")
    true(sp, st, AND(ge0(cnt), le(cnt, cap)), what + ": the number of rows is within the capacity", f"{show(cnt)} of {show(cap)}")
    true(sp, st, le(cap, I_(MAXR)), what + ": the capacity is within the limit", show(cap))
    zero = st.facts.settle(eqi(cap, I_(0))) is True
    held = []
    for j, t in enumerate(ts):
        p = acol(a, j)
        if t.size is I_(0) or zero:
            if not same(st, p, zptr(t)):
                if ptrkind(p) != "dangling":
                    sp.check(not feasible(st), what + ": a column without memory has an aligned, non-null pointer", show(p))
                else:
                    agree(sp, st, p.a[1] if p.op == "poff" else p.a[0], t.align, what + ": a column without memory has an aligned, non-null pointer")
            continue
        held.append(column(sp, st, p, mul(t.size, cap), t.align, what + ": each column's block fits capacity and layout", t.name))
    if not zero:
        held.append(column(sp, st, select_f(a, "entity_associations"), mul(I4, cap), I4, what + ": the handle column's block fits capacity and layout", "entities"))
    held = [h for h in held if h is not None]
    sp.check(len(set(held)) == len(held) or not feasible(st), what + ": columns do not share memory", str(held))
    live = {k.a[0] for k, v in st.heap.items() if k.op == "blk" and v.a[2] is TRUE}
    lost = live - set(held) - set(blocks)
    sp.check(not lost or not feasible(st), what + ": no block is leaked", f"{[show(x) for x in lost]}")


def column(sp, st, p, size, align, what, name):
    if not isblock(p):
        if ptrkind(p):
            sp.check(not feasible(st), what, f"{name}: {show(p)}")
        else:
            sp.undecided(what, f"{name}: {show(p)}")
        return None
    if p.op == "poff":
        sp.check(not feasible(st), what, f"{name}: points inside a block: {show(p)}")
        return None
    info = st.heap.get(blk(p))
    if info is None:
        sp.undecided(what, f"{name}: {show(p)}")
        return None
    sp.check(info.a[2] is TRUE or not feasible(st), what, f"{name}: freed block")
    agree(sp, st, info.a[0], size, what, name)
    agree(sp, st, info.a[1], align, what, name)
    return p


def drops(st, st0=None):
    """destruction events, in order"""
    return [e for e in st.ev if e.name in ("drop", "dropcol")]


def dropped_rows(st):
    return [(e.a[0].a[0], e.a[1], e.a[2], e.a[3]) for e in st.ev if e.name == "dropcol"]
