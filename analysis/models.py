"""Semantics of the standard library functions the crate uses (def path -> effect on the abstract state)."""

from terms import *
from engine import mkref, Unsupported, Infeasible, NeedFork, Ev, St

M = {}
OPT = "core::option::Option"
RES = "core::result::Result"
USZ = (0, (1 << 63) - 1)


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f

    return d


def none():
    return mk("variant", OPT, 0, "None", (), ())


def some(v):
    return mk("variant", OPT, 1, "Some", ("0",), (v,))


def ok(v):
    return mk("variant", RES, 0, "Ok", ("0",), (v,))


def err(v):
    return mk("variant", RES, 1, "Err", ("0",), (v,))


def unit(eng, st, fr, f, args, t):
    return UNIT


def ident(eng, st, fr, f, args, t):
    return args[0]


def panics(eng, st, fr, f, args, t):
    return [(st, "panic", (eng.fname(f).split("::")[-1], t["sp"], fr.inst["path"]))]


for n in (
    "core::panicking::panic",
    "core::panicking::panic_fmt",
    "core::panicking::panic_nounwind",
    "core::panicking::panic_nounwind_fmt",
    "core::panicking::panic_bounds_check",
    "core::panicking::panic_explicit",
    "core::panicking::panic_display",
    "core::panicking::panic_str_2015",
    "core::panicking::unreachable_display",
    "core::panicking::assert_failed",
    "core::panicking::assert_failed_inner",
    "core::option::unwrap_failed",
    "core::option::expect_failed",
    "core::result::unwrap_failed",
    "core::slice::index::slice_index_fail",
    "core::intrinsics::abort",
):
    M[n] = panics
M["core::panicking::unreachable_default_msg"] = lambda e, s, fr, f, a, t: mk("str", "")
for n in ("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new_const"):
    M[n] = lambda e, s, fr, f, a, t: mk("fmtargs")
for n in (
    "core::ub_checks::check_language_ub",
    "core::ub_checks::check_library_ub",
):
    M[n] = lambda e, s, fr, f, a, t: FALSE


def cases(st, *alts):
    """alts: (condition, value or (kind, value))"""
    out = []
    for c, v in alts:
        s = st.assume(c)
        if s is not None:
            if isinstance(v, tuple):
                out.append((s, v[0], v[1]))
            else:
                out.append((s, "ret", v))
    return out


def targ(eng, f, i=0):
    a = [x for x in f.get("rargs", f["args"]) if isinstance(x, int)]
    return a[i]


# ---------------------------------------------------------------- vectors
VEC = "alloc::vec::Vec"


def vecv(buf, n):
    return mk("struct", VEC, ("$buf", "$len"), (buf, n))


EMPTY = mk("emptybuf")


@model("alloc::vec::Vec::<T>::new", "<alloc::vec::Vec<T> as core::default::Default>::default")
def vec_new(eng, st, fr, f, args, t):
    return vecv(EMPTY, I(0))


@model("alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::with_capacity_in")
def vec_cap(eng, st, fr, f, args, t):
    return vecv(EMPTY, I(0))


def vlen(st, root, proj):
    n = st.read(root, proj + (mk("f", "$len"),))
    if n.op not in ("int", "poly") and n not in RNG:
        RNG[n] = USZ
    return n


def vparts(eng, st, v):
    root, proj, _ = eng.deref(st, v)
    return root, proj, vlen(st, root, proj)


def BUF(proj):
    return proj + (mk("f", "$buf"),)


@model("alloc::vec::Vec::<T, A>::len")
def vec_len(eng, st, fr, f, args, t):
    return vparts(eng, st, args[0])[2]


@model("alloc::vec::Vec::<T, A>::is_empty")
def vec_is_empty(eng, st, fr, f, args, t):
    return eqi(vparts(eng, st, args[0])[2], I(0))


@model("alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact", "alloc::vec::Vec::<T, A>::shrink_to_fit")
def vec_reserve(eng, st, fr, f, args, t):
    return UNIT


def conc(b, n):
    """the elements of a buffer of known length and content"""
    if n.op != "int":
        return None
    if n.a[0] == 0:
        return ()
    if b.op == "arr" and len(b.a) >= n.a[0]:
        return b.a[: n.a[0]]
    return None


@model("alloc::vec::Vec::<T, A>::push")
def vec_push(eng, st, fr, f, args, t):
    st = st.copy()
    root, proj, n = vparts(eng, st, args[0])
    l = conc(st.read(root, BUF(proj)), n)
    if l is not None:
        st.write(root, BUF(proj), mk("arr", *(l + (args[1],))))
        st.write(root, proj + (mk("f", "$len"),), add(n, I(1)))
        return [(st, "ret", UNIT)]
    st.write(root, BUF(proj) + (mk("i", n),), args[1])
    st.write(root, proj + (mk("f", "$len"),), add(n, I(1)))
    return [(st, "ret", UNIT)]


@model("alloc::vec::Vec::<T, A>::pop")
def vec_pop(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    out = []
    s = st.assume(eqi(n, I(0)))
    if s is not None:
        out.append((s, "ret", none()))
    s = st.assume(NOT(eqi(n, I(0))))
    if s is not None:
        s = s.copy()
        v = s.read(root, BUF(proj) + (mk("i", sub(n, I(1))),))
        s.write(root, proj + (mk("f", "$len"),), sub(n, I(1)))
        out.append((s, "ret", some(v)))
    return out


@model("alloc::vec::Vec::<T, A>::insert")
def vec_insert(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    out = []
    s = st.assume(le(args[1], n))
    if s is not None:
        s = s.copy()
        b = s.read(root, BUF(proj))
        l = conc(b, n)
        if l is not None and args[1].op == "int":
            k = args[1].a[0]
            s.write(root, BUF(proj), mk("arr", *(l[:k] + (args[2],) + l[k:])))
        else:
            s.write(root, BUF(proj), mk("insert", b, args[1], args[2], n))
        s.write(root, proj + (mk("f", "$len"),), add(n, I(1)))
        out.append((s, "ret", UNIT))
    s = st.assume(NOT(le(args[1], n)))
    if s is not None:
        out.append((s, "panic", ("insert", t["sp"], fr.inst["path"])))
    return out


@model("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def vec_remove(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    out = []
    s = st.assume(lt(args[1], n))
    if s is not None:
        s = s.copy()
        b = s.read(root, BUF(proj))
        v = s.read(root, BUF(proj) + (mk("i", args[1]),))
        l = conc(b, n)
        if l is not None and args[1].op == "int":
            k = args[1].a[0]
            l = l[:k] + l[k + 1 :] if f["def"].endswith("::remove") else l[:k] + (l[-1:] + l[k + 1 : -1] if k < len(l) - 1 else ())
            s.write(root, BUF(proj), mk("arr", *l))
            s.write(root, proj + (mk("f", "$len"),), sub(n, I(1)))
            out.append((s, "ret", v))
            s = st.assume(NOT(lt(args[1], n)))
            if s is not None:
                out.append((s, "panic", ("remove", t["sp"], fr.inst["path"])))
            return out
        s.write(root, BUF(proj), mk("vec" + f["def"].split("::")[-1], b, args[1], n))
        s.write(root, proj + (mk("f", "$len"),), sub(n, I(1)))
        out.append((s, "ret", v))
    s = st.assume(NOT(lt(args[1], n)))
    if s is not None:
        out.append((s, "panic", ("remove", t["sp"], fr.inst["path"])))
    return out


@model("alloc::vec::Vec::<T, A>::clear")
def vec_clear(eng, st, fr, f, args, t):
    st = st.copy()
    root, proj, n = vparts(eng, st, args[0])
    st.write(root, proj + (mk("f", "$len"),), I(0))
    return [(st, "ret", UNIT)]


@model(
    "<alloc::vec::Vec<T, A> as core::ops::Deref>::deref",
    "<alloc::vec::Vec<T, A> as core::ops::DerefMut>::deref_mut",
    "alloc::vec::Vec::<T, A>::as_slice",
    "alloc::vec::Vec::<T, A>::as_mut_slice",
)
def vec_deref(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    return mk("fat", root, BUF(proj), I(0), n)


@model("alloc::vec::Vec::<T, A>::as_ptr", "alloc::vec::Vec::<T, A>::as_mut_ptr")
def vec_ptr(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    return mkref(root, BUF(proj) + (mk("i", I(0)),))


def index_slice(eng, st, fr, fat, idx, t):
    """fat[idx] for usize and range indices -> outcomes with a reference"""
    root, proj, s0, n = fat.a
    if idx.op == "struct" and "Range" in idx.a[0]:
        nm = idx.a[0].split("::")[-1]
        if nm == "Range":
            a, b = select_f(idx, "start"), select_f(idx, "end")
        elif nm == "RangeFrom":
            a, b = select_f(idx, "start"), n
        elif nm == "RangeTo":
            a, b = I(0), select_f(idx, "end")
        elif nm == "RangeFull":
            a, b = I(0), n
        elif nm == "RangeToInclusive":
            a, b = I(0), add(select_f(idx, "end"), I(1))
        else:
            raise Unsupported("index " + nm)
        c = AND(le(a, b), le(b, n))
        return cases(
            st,
            (c, mk("fat", root, proj, add(s0, a), sub(b, a))),
            (NOT(c), ("panic", ("slice range", t["sp"], fr.inst["path"]))),
        )
    if idx.op == "struct":
        raise Unsupported("index " + show(idx))
    c = AND(ge0(idx), lt(idx, n))
    return cases(
        st,
        (c, mkref(root, proj + (mk("i", add(s0, idx)),))),
        (NOT(c), ("panic", ("index out of bounds", t["sp"], fr.inst["path"]))),
    )


@model("<alloc::vec::Vec<T, A> as core::ops::Index<I>>::index", "<alloc::vec::Vec<T, A> as core::ops::IndexMut<I>>::index_mut")
def vec_index(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    return index_slice(eng, st, fr, mk("fat", root, BUF(proj), I(0), n), args[1], t)


@model(
    "core::slice::index::<impl core::ops::Index<I> for [T]>::index",
    "core::slice::index::<impl core::ops::IndexMut<I> for [T]>::index_mut",
)
def slice_index(eng, st, fr, f, args, t):
    return index_slice(eng, st, fr, eng.asfat(args[0]), args[1], t)


@model("core::array::<impl core::ops::Index<I> for [T; N]>::index", "core::array::<impl core::ops::IndexMut<I> for [T; N]>::index_mut")
def arr_index(eng, st, fr, f, args, t):
    return index_slice(eng, st, fr, arrfat(eng, st, f, args[0]), args[1], t)


def arrfat(eng, st, f, v):
    if v.op == "fat":
        return v
    n = None
    for x in f.get("rargs", f["args"]):
        if isinstance(x, dict) or isinstance(x, str):
            n = x
    n = arrlen(eng, f)
    root, proj, _ = eng.deref(st, v)
    return mk("fat", root, proj, I(0), n)


def arrlen(eng, f):
    for x in f.get("rargs", f["args"]):
        if isinstance(x, list) and x and x[0] == "c":
            return I(x[1]) if isinstance(x[1], int) else eng.cparam(x[1])
        if isinstance(x, dict) and "c" in x:
            return I(x["c"]) if isinstance(x["c"], int) else eng.cparam(x["c"])
    raise Unsupported("array length of " + str(f.get("args")))


@model("core::array::<impl [T; N]>::as_slice", "core::array::<impl [T; N]>::as_mut_slice")
def arr_slice(eng, st, fr, f, args, t):
    return arrfat(eng, st, f, args[0])


@model("core::array::<impl core::clone::Clone for [T; N]>::clone")
def arr_clone(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    return st.read(root, proj)


# ---------------------------------------------------------------- slices
@model("core::slice::<impl [T]>::len")
def sl_len(eng, st, fr, f, args, t):
    return eng.asfat(args[0]).a[3]


@model("core::slice::<impl [T]>::is_empty")
def sl_empty(eng, st, fr, f, args, t):
    return eqi(eng.asfat(args[0]).a[3], I(0))


def elem(fat, i):
    return mkref(fat.a[0], fat.a[1] + (mk("i", add(fat.a[2], i)),))


def uncheck(eng, st, fr, fat, idx, t):
    if idx.op == "struct":
        return [o for o in index_slice(eng, st, fr, fat, idx, t) if o[1] == "ret"]
    eng.emit(st, fr, "unchecked_index", (fat, idx), t["sp"])
    return [(st, "ret", elem(fat, idx))]


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def sl_getu(eng, st, fr, f, args, t):
    v = args[0]
    if v.op == "ref":
        raise Unsupported("get_unchecked on thin " + show(v))
    st = st.copy()
    return uncheck(eng, st, fr, eng.asfat(v), args[1], t)


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def sl_get(eng, st, fr, f, args, t):
    v = eng.asfat(args[0])
    return [(s, "ret", some(x) if k == "ret" else none()) for s, k, x in index_slice(eng, st, fr, v, args[1], t)]


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def sl_first(eng, st, fr, f, args, t):
    v = eng.asfat(args[0])
    c = eqi(v.a[3], I(0))
    return cases(st, (c, none()), (NOT(c), some(elem(v, I(0)))))


@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def sl_last(eng, st, fr, f, args, t):
    v = eng.asfat(args[0])
    c = eqi(v.a[3], I(0))
    return cases(st, (c, none()), (NOT(c), some(elem(v, sub(v.a[3], I(1))))))


@model("core::slice::<impl [T]>::split_at", "core::slice::<impl [T]>::split_at_mut")
def sl_split(eng, st, fr, f, args, t):
    v = eng.asfat(args[0])
    c = le(args[1], v.a[3])
    r = mk(
        "tuple",
        ("0", "1"),
        (
            mk("fat", v.a[0], v.a[1], v.a[2], args[1]),
            mk("fat", v.a[0], v.a[1], add(v.a[2], args[1]), sub(v.a[3], args[1])),
        ),
    )
    return cases(st, (c, r), (NOT(c), ("panic", ("split_at", t["sp"], fr.inst["path"]))))


@model("core::slice::<impl [T]>::split_at_unchecked", "core::slice::<impl [T]>::split_at_mut_unchecked")
def sl_splitu(eng, st, fr, f, args, t):
    return [o for o in sl_split(eng, st, fr, f, args, t) if o[1] == "ret"]


@model("core::slice::<impl [T]>::swap", "core::slice::<impl [T]>::swap_unchecked")
def sl_swap(eng, st, fr, f, args, t):
    v = eng.asfat(args[0])
    out = []
    c = AND(lt(args[1], v.a[3]), lt(args[2], v.a[3]))
    s = st.assume(c)
    if s is not None:
        s = s.copy()
        a, b = eng.deref(s, elem(v, args[1])), eng.deref(s, elem(v, args[2]))
        x, y = s.read(a[0], a[1]), s.read(b[0], b[1])
        s.write(a[0], a[1], y)
        s.write(b[0], b[1], x)
        out.append((s, "ret", UNIT))
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "panic", ("swap out of bounds", t["sp"], fr.inst["path"])))
    return out


@model("core::slice::<impl [T]>::as_mut_ptr", "core::slice::<impl [T]>::as_ptr")
def sl_ptr(eng, st, fr, f, args, t):
    v = args[0]
    if v.op == "ref":
        root, proj, _ = eng.deref(st, v)
        return mkref(root, proj + (mk("i", I(0)),))
    v = eng.asfat(v)
    if not v.a[1] and v.a[0].op == "obj" and v.a[2] is I(0):
        # raw slice memory: element 0 of the block is the block's address
        return mkref(v.a[0], (mk("i", I(0)),))
    return elem(v, I(0))


@model(
    "core::slice::from_raw_parts",
    "core::slice::from_raw_parts_mut",
    "core::ptr::slice_from_raw_parts",
    "core::ptr::slice_from_raw_parts_mut",
    "core::ptr::from_raw_parts",
)
def from_raw(eng, st, fr, f, args, t):
    return eng.fatof(args[0], args[1], targ(eng, f))


@model("core::str::<impl str>::as_bytes")
def as_bytes(eng, st, fr, f, args, t):
    return args[0]


@model("core::str::<impl str>::len")
def str_len(eng, st, fr, f, args, t):
    if args[0].op == "str":
        return I(len(args[0].a[0].encode()))
    return eng.slen(args[0])


# ---------------------------------------------------------------- slice iterators
SI = "SliceIter"


def sliter(v):
    return mk("struct", SI, ("s", "i", "n"), (v, I(0), v.a[3]))


@model(
    "core::slice::<impl [T]>::iter",
    "core::slice::<impl [T]>::iter_mut",
    "core::slice::iter::<impl core::iter::IntoIterator for &'a [T]>::into_iter",
    "core::slice::iter::<impl core::iter::IntoIterator for &'a mut [T]>::into_iter",
)
def sl_iter(eng, st, fr, f, args, t):
    return sliter(eng.asfat(args[0]))


@model(
    "core::array::<impl core::iter::IntoIterator for &'a [T; N]>::into_iter",
    "core::array::<impl core::iter::IntoIterator for &'a mut [T; N]>::into_iter",
)
def arr_iter(eng, st, fr, f, args, t):
    return sliter(arrfat(eng, st, f, args[0]))


@model(
    "<&'a alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter",
    "<&'a mut alloc::vec::Vec<T, A> as core::iter::IntoIterator>::into_iter",
)
def vec_iter(eng, st, fr, f, args, t):
    root, proj, n = vparts(eng, st, args[0])
    return sliter(mk("fat", root, BUF(proj), I(0), n))


def F(n):
    return mk("f", n)


@model(
    "<core::slice::Iter<'a, T> as core::iter::Iterator>::next",
    "<core::slice::IterMut<'a, T> as core::iter::Iterator>::next",
)
def si_next(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    v = st.read(root, proj + (F("s"),))
    i = st.read(root, proj + (F("i"),))
    n = st.read(root, proj + (F("n"),))
    c = lt(i, n)
    out = []
    s = st.assume(c)
    if s is not None:
        s = s.copy()
        s.write(root, proj + (F("i"),), add(i, I(1)))
        out.append((s, "ret", some(elem(v, i))))
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "ret", none()))
    return out


@model(
    "<core::slice::Iter<'a, T> as core::iter::DoubleEndedIterator>::next_back",
    "<core::slice::IterMut<'a, T> as core::iter::DoubleEndedIterator>::next_back",
)
def si_next_back(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    v = st.read(root, proj + (F("s"),))
    i = st.read(root, proj + (F("i"),))
    n = st.read(root, proj + (F("n"),))
    c = lt(i, n)
    out = []
    s = st.assume(c)
    if s is not None:
        s = s.copy()
        s.write(root, proj + (F("n"),), sub(n, I(1)))
        out.append((s, "ret", some(elem(v, sub(n, I(1))))))
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "ret", none()))
    return out


def _bounds(st, root, proj, names):
    return st.read(root, proj + (F(names[0]),)), st.read(root, proj + (F(names[1]),))


def _nth(names, pick, back=False):
    """skips args[1] elements of a slice iterator or range and yields the next one"""

    def fn(eng, st, fr, f, args, t):
        root, proj, _ = eng.deref(st, args[0])
        lo, hi = _bounds(st, root, proj, names)
        k = args[1]
        if k.op not in ("int", "poly") and k not in RNG:
            RNG[k] = USZ
        c = lt(add(lo, k), hi)
        out = []
        s = st.assume(c)
        if s is not None:
            s = s.copy()
            at = sub(sub(hi, k), I(1)) if back else add(lo, k)
            v = pick(s, root, proj, at)
            s.write(root, proj + (F(names[1] if back else names[0]),), at if back else add(at, I(1)))
            out.append((s, "ret", some(v)))
        s = st.assume(NOT(c))
        if s is not None:
            s = s.copy()
            s.write(root, proj + (F(names[1] if back else names[0]),), lo if back else hi)
            out.append((s, "ret", none()))
        return out

    return fn


def _count(names):
    def fn(eng, st, fr, f, args, t):
        it = args[0]
        lo, hi = select_f(it, names[0]), select_f(it, names[1])
        return cases(st, (le(lo, hi), sub(hi, lo)), (lt(hi, lo), I(0)))

    return fn


def _hint(names):
    def fn(eng, st, fr, f, args, t):
        root, proj, _ = eng.deref(st, args[0])
        lo, hi = _bounds(st, root, proj, names)
        w = lambda n: mk("tuple", ("0", "1"), (n, some(n)))
        return cases(st, (le(lo, hi), w(sub(hi, lo))), (lt(hi, lo), w(I(0))))

    return fn


def _len(names):
    def fn(eng, st, fr, f, args, t):
        root, proj, _ = eng.deref(st, args[0])
        lo, hi = _bounds(st, root, proj, names)
        return cases(st, (le(lo, hi), sub(hi, lo)), (lt(hi, lo), I(0)))

    return fn


def _last(names, pick):
    def fn(eng, st, fr, f, args, t):
        st = st.copy()
        root = mk("L", eng.newfid(), 0)
        st.heap[root] = args[0]
        lo, hi = _bounds(st, root, (), names)
        out = []
        s = st.assume(lt(lo, hi))
        if s is not None:
            out.append((s, "ret", some(pick(s, root, (), sub(hi, I(1))))))
        s = st.assume(NOT(lt(lo, hi)))
        if s is not None:
            out.append((s, "ret", none()))
        return out

    return fn


def _advance(names):
    """Ok(()) or Err(elements missing), as a NonZero"""

    def fn(eng, st, fr, f, args, t):
        root, proj, _ = eng.deref(st, args[0])
        lo, hi = _bounds(st, root, proj, names)
        k = args[1]
        if k.op not in ("int", "poly") and k not in RNG:
            RNG[k] = USZ
        c = le(add(lo, k), hi)
        out = []
        s = st.assume(c)
        if s is not None:
            s = s.copy()
            s.write(root, proj + (F(names[0]),), add(lo, k))
            out.append((s, "ret", ok(UNIT)))
        s = st.assume(NOT(c))
        if s is not None:
            s = s.copy()
            s.write(root, proj + (F(names[0]),), hi)
            out.append((s, "ret", err(sub(k, sub(hi, lo)))))
        return out

    return fn


_SL, _RG = ("i", "n"), ("start", "end")
_slpick = lambda s, root, proj, at: elem(s.read(root, proj + (F("s"),)), at)
_rgpick = lambda s, root, proj, at: at
for _p, _n, _k in (
    ("<core::slice::Iter<'a, T> as core::iter::{}>", _SL, _slpick),
    ("<core::slice::IterMut<'a, T> as core::iter::{}>", _SL, _slpick),
    ("core::iter::range::<impl core::iter::{} for core::ops::Range<A>>", _RG, _rgpick),
):
    M[_p.format("Iterator") + "::nth"] = _nth(_n, _k)
    M[_p.format("DoubleEndedIterator") + "::nth_back"] = _nth(_n, _k, True)
    M[_p.format("Iterator") + "::count"] = _count(_n)
    M[_p.format("Iterator") + "::size_hint"] = _hint(_n)
    M[_p.format("Iterator") + "::last"] = _last(_n, _k)
    M[_p.format("Iterator") + "::advance_by"] = _advance(_n)
    M[_p.format("ExactSizeIterator") + "::len"] = _len(_n)
M["<core::slice::Iter<'_, T> as core::iter::ExactSizeIterator>::len"] = _len(_SL)
M["<core::slice::IterMut<'_, T> as core::iter::ExactSizeIterator>::len"] = _len(_SL)


# ranges
@model("core::iter::range::<impl core::iter::Iterator for core::ops::Range<A>>::next")
def range_next(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    a = st.read(root, proj + (F("start"),))
    b = st.read(root, proj + (F("end"),))
    c = lt(a, b)
    out = []
    s = st.assume(c)
    if s is not None:
        s = s.copy()
        s.write(root, proj + (F("start"),), add(a, I(1)))
        out.append((s, "ret", some(a)))
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "ret", none()))
    return out


@model("core::iter::range::<impl core::iter::DoubleEndedIterator for core::ops::Range<A>>::next_back")
def range_next_back(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    a = st.read(root, proj + (F("start"),))
    b = st.read(root, proj + (F("end"),))
    c = lt(a, b)
    out = []
    s = st.assume(c)
    if s is not None:
        s = s.copy()
        s.write(root, proj + (F("end"),), sub(b, I(1)))
        out.append((s, "ret", some(sub(b, I(1)))))
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "ret", none()))
    return out


# ---------------------------------------------------------------- integers
@model("core::num::<impl u16>::to_ne_bytes", "core::num::<impl u16>::to_le_bytes")
def u16b(eng, st, fr, f, args, t):
    return eng.tobytes(args[0], 16)


@model("core::num::<impl u32>::to_ne_bytes", "core::num::<impl u32>::to_le_bytes")
def u32b(eng, st, fr, f, args, t):
    return eng.tobytes(args[0], 32)


def rev(v, n):
    return mk("arr", *[select_i(v, I(n - 1 - i), None) for i in range(n)])


@model("core::num::<impl u32>::to_be_bytes")
def u32be(eng, st, fr, f, args, t):
    return rev(eng.tobytes(args[0], 32), 4)


@model("core::num::<impl u16>::to_be_bytes")
def u16be(eng, st, fr, f, args, t):
    return rev(eng.tobytes(args[0], 16), 2)


@model("core::num::<impl u16>::from_ne_bytes", "core::num::<impl u16>::from_le_bytes")
def bu16(eng, st, fr, f, args, t):
    return eng.frombytes(args[0], 16)


@model("core::num::<impl u32>::from_ne_bytes", "core::num::<impl u32>::from_le_bytes")
def bu32(eng, st, fr, f, args, t):
    return eng.frombytes(args[0], 32)


@model("core::num::<impl u32>::from_be_bytes")
def bu32be(eng, st, fr, f, args, t):
    return eng.frombytes(rev(args[0], 4), 32)


@model("core::num::<impl u16>::from_be_bytes")
def bu16be(eng, st, fr, f, args, t):
    return eng.frombytes(rev(args[0], 2), 16)


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


def iname(f):
    n = f.get("rdef") or f["def"]
    return n.split("<impl ")[1].split(">")[0]


def irng(f):
    n = iname(f)
    b = BITS[n]
    return (b, 0, (1 << b) - 1) if n[0] == "u" else (b, -(1 << (b - 1)), (1 << (b - 1)) - 1)


def wrapped(st, v, b, lo, hi):
    if v.op == "int":
        return I((v.a[0] - lo) % (hi - lo + 1) + lo)
    if st.facts.decide(AND(ge0(sub(v, I(lo))), ge0(sub(I(hi), v)))) is True:
        return v
    w = mk("wrap", b, v)
    RNG[w] = (lo, hi)
    return w


def _arith(op):
    return {"add": add, "sub": sub, "mul": mul}[op]


def mkarith(kind, op):
    def fn(eng, st, fr, f, args, t):
        b, lo, hi = irng(f)
        a, c = args[0], args[1]
        for x in (a, c):
            if x.op not in ("int", "poly") and x not in RNG:
                RNG[x] = (lo, hi)
        v = _arith(op)(a, c)
        inr = AND(ge0(sub(v, I(lo))), ge0(sub(I(hi), v)))
        if kind == "wrapping":
            return wrapped(st, v, b, lo, hi)
        if kind == "checked":
            return cases(st, (inr, some(v)), (NOT(inr), none()))
        if kind == "saturating":
            return cases(
                st,
                (inr, v),
                (lt(v, I(lo)), I(lo)),
                (lt(I(hi), v), I(hi)),
            )
        if kind == "overflowing":
            return mk("tuple", ("0", "1"), (wrapped(st, v, b, lo, hi), NOT(inr)))
        return v

    return fn


for _ty in BITS:
    for _k in ("wrapping", "checked", "saturating", "overflowing", "unchecked"):
        for _o in ("add", "sub", "mul"):
            M[f"core::num::<impl {_ty}>::{_k}_{_o}"] = mkarith(_k, _o)


@model(*[f"core::num::<impl {x}>::pow" for x in BITS])
def ipow(eng, st, fr, f, args, t):
    b, lo, hi = irng(f)
    if args[0].op == "int" and args[1].op == "int":
        return I((args[0].a[0] ** args[1].a[0]) & hi)
    return eng.typed(mk("pow", *args), f_ret(eng, f, t))


def f_ret(eng, f, t):
    return t["dst"][2]


@model(*[f"core::num::<impl {x}>::next_power_of_two" for x in BITS if x[0] == "u"])
def npow2(eng, st, fr, f, args, t):
    b, lo, hi = irng(f)
    x = args[0]
    if x.op == "int":
        v = 1 << max(0, (x.a[0] - 1).bit_length())
        return I(v) if v <= hi else I(0)
    if x.op != "poly" and x not in RNG:
        RNG[x] = (lo, hi)
    c = le(x, I(1 << (b - 1)))
    v = mk("npow2", b, x)
    RNG[v] = (1, hi)
    out = []
    s = st.assume(c)
    if s is not None:
        s = s.assume(le(x, v))
    if s is not None:
        out.append((s, "ret", v))
    if st.facts.decide(c) is not True:
        s = st.assume(NOT(c))
        if s is not None:
            out += panics(eng, s, fr, f, args, t) if eng.debug else [(s, "ret", I(0))]
    return out


@model(*[f"core::num::<impl {x}>::abs_diff" for x in BITS])
def absdiff(eng, st, fr, f, args, t):
    return cases(st, (le(args[1], args[0]), sub(args[0], args[1])), (lt(args[0], args[1]), sub(args[1], args[0])))


@model(*[f"core::cmp::impls::<impl core::cmp::Ord for {x}>::{m}" for x in BITS for m in ("min", "max")], "core::cmp::Ord::min", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::max")
def iminmax(eng, st, fr, f, args, t):
    a, b = args[:2]
    c = le(a, b)
    if f["def"].endswith("min"):
        return cases(st, (c, a), (NOT(c), b))
    return cases(st, (c, b), (NOT(c), a))


@model(*[f"core::cmp::impls::<impl core::cmp::Ord for {x}>::cmp" for x in BITS])
def icmp(eng, st, fr, f, args, t):
    a, b = (deref_read(eng, st, x) for x in args)
    return mk("cmp", a, b)


@model(*[f"core::cmp::impls::<impl core::cmp::PartialOrd for {x}>::partial_cmp" for x in BITS])
def ipcmp(eng, st, fr, f, args, t):
    a, b = (deref_read(eng, st, x) for x in args)
    return some(mk("cmp", a, b))


for _x in BITS:
    for _m, _f in (
        ("eq", eqi),
        ("ne", lambda a, b: NOT(eqi(a, b))),
    ):
        M[f"core::cmp::impls::<impl core::cmp::PartialEq for {_x}>::{_m}"] = (
            lambda g: lambda eng, st, fr, f, args, t: g(*(deref_read(eng, st, x) for x in args))
        )(_f)
    for _m, _f in (("lt", lt), ("le", le), ("gt", lambda a, b: lt(b, a)), ("ge", lambda a, b: le(b, a))):
        M[f"core::cmp::impls::<impl core::cmp::PartialOrd for {_x}>::{_m}"] = (
            lambda g: lambda eng, st, fr, f, args, t: g(*(deref_read(eng, st, x) for x in args))
        )(_f)
    M[f"core::clone::impls::<impl core::clone::Clone for {_x}>::clone"] = lambda eng, st, fr, f, args, t: deref_read(
        eng, st, args[0]
    )


def deref_read(eng, st, v):
    root, proj, _ = eng.deref(st, v)
    r = st.read(root, proj)
    return r


@model("core::clone::impls::<impl core::clone::Clone for &T>::clone", "core::clone::impls::<impl core::clone::Clone for bool>::clone")
def refclone(eng, st, fr, f, args, t):
    return deref_read(eng, st, args[0])


@model("core::cmp::Ordering::then_with")
def then_with(eng, st, fr, f, args, t):
    """self, or the closure's result when self is Equal"""
    o = args[0]
    if o.op == "cmp":
        c = eqi(*o.a)
    elif o.op == "variant":
        c = B(o.a[2] == "Equal")
    else:
        c = eqi(mk("discr", o), I(0))
        RNG[mk("discr", o)] = (-1, 1)
    out = []
    s = st.assume(NOT(c))
    if s is not None:
        out.append((s, "ret", o))
    s = st.assume(c)
    if s is not None:
        out.extend(eng.call_value(s, fr, args[1], [], t))
    return out


@model("core::cmp::Ordering::then")
def then(eng, st, fr, f, args, t):
    o = args[0]
    if o.op == "cmp":
        c = eqi(*o.a)
    else:
        c = eqi(eng.discr(o, t["dst"][2]), I(0))
    return cases(st, (NOT(c), o), (c, args[1]))


# ---------------------------------------------------------------- memory
@model("core::mem::size_of")
def size_of(eng, st, fr, f, args, t):
    return eng.sizeof(targ(eng, f))


@model("core::mem::align_of")
def align_of(eng, st, fr, f, args, t):
    return eng.alignof(targ(eng, f))


@model("core::mem::forget")
def forget(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "forget", (args[0],), t["sp"])
    return [(st, "ret", UNIT)]


MDR = "core::mem::ManuallyDrop"


@model("core::mem::ManuallyDrop::<T>::new")
def md_new(eng, st, fr, f, args, t):
    return mk("struct", MDR, ("value",), (args[0],))


@model("<core::mem::ManuallyDrop<T> as core::ops::Deref>::deref", "<core::mem::ManuallyDrop<T> as core::ops::DerefMut>::deref_mut")
def md_deref(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    return eng.mkref(root, proj + (F("value"),))


@model("core::mem::ManuallyDrop::<T>::into_inner")
def md_into(eng, st, fr, f, args, t):
    return select_f(args[0], "value")


@model("core::mem::ManuallyDrop::<T>::drop")
def md_drop(eng, st, fr, f, args, t):
    st = st.copy()
    root, proj, _ = eng.deref(st, args[0])
    eng.emit(st, fr, "drop", (mk("ty", eng.p.tystr(targ(eng, f))), st.read(root, proj), args[0]), t["sp"])
    return [(st, "ret", UNIT)]


@model("core::ptr::drop_in_place")
def drop_in_place(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "drop", (mk("ty", eng.p.tystr(targ(eng, f))), mk("memory"), args[0]), t["sp"])
    return [(st, "ret", UNIT)]


@model("core::mem::drop")
def mem_drop(eng, st, fr, f, args, t):
    st = st.copy()
    ty = eng.p.ty(targ(eng, f))
    if f.get("nd", True) and ty["k"] not in ("uint", "int", "bool", "ref", "ptr"):
        eng.emit(st, fr, "drop", (mk("ty", ty["s"]), args[0], args[0]), t["sp"])
    return [(st, "ret", UNIT)]


@model("core::mem::swap")
def mem_swap(eng, st, fr, f, args, t):
    st = st.copy()
    a, b = eng.deref(st, args[0]), eng.deref(st, args[1])
    x, y = st.read(a[0], a[1]), st.read(b[0], b[1])
    st.write(a[0], a[1], y)
    st.write(b[0], b[1], x)
    return [(st, "ret", UNIT)]


@model("core::mem::replace", "core::ptr::replace")
def mem_replace(eng, st, fr, f, args, t):
    st = st.copy()
    a = eng.deref(st, args[0])
    x = st.read(a[0], a[1])
    st.write(a[0], a[1], args[1])
    return [(st, "ret", x)]


@model("core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read", "core::ptr::read_unaligned")
def ptr_read(eng, st, fr, f, args, t):
    root, proj, _ = eng.deref(st, args[0])
    st = st.copy()
    v = st.read(root, proj)
    eng.emit(st, fr, "read", (args[0], mk("ty", eng.p.tystr(targ(eng, f)))), t["sp"])
    return [(st, "ret", v)]


@model("core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write", "core::ptr::write_unaligned")
def ptr_write(eng, st, fr, f, args, t):
    st = st.copy()
    root, proj, _ = eng.deref(st, args[0])
    st.write(root, proj, args[1])
    eng.emit(st, fr, "write", (args[0], args[1], mk("ty", eng.p.tystr(targ(eng, f)))), t["sp"])
    return [(st, "ret", UNIT)]


def bytesof(eng, f, n, i=0):
    return mul(n, eng.sizeof(targ(eng, f, i)))


@model("core::ptr::copy_nonoverlapping", "core::ptr::copy")
def copyno(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "copy", (args[0], args[1], bytesof(eng, f, args[2])), t["sp"])
    return [(st, "ret", UNIT)]


@model("core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "core::ptr::mut_ptr::<impl *mut T>::copy_from")
def copyfrom(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "copy", (args[1], args[0], bytesof(eng, f, args[2])), t["sp"])
    return [(st, "ret", UNIT)]


@model(
    "core::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping",
    "core::ptr::mut_ptr::<impl *mut T>::copy_to",
    "core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping",
    "core::ptr::const_ptr::<impl *const T>::copy_to",
)
def copyto(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "copy", (args[0], args[1], bytesof(eng, f, args[2])), t["sp"])
    return [(st, "ret", UNIT)]


@model("core::ptr::swap_nonoverlapping")
def swapno(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "swapmem", (args[0], args[1], bytesof(eng, f, args[2])), t["sp"])
    return [(st, "ret", UNIT)]


def poffs(sign, bytewise=False):
    def fn(eng, st, fr, f, args, t):
        n = args[1] if sign > 0 else sub(I(0), args[1])
        if bytewise:
            return eng.byte_offset(args[0], n)
        return eng.ptr_offset(st, args[0], n, targ(eng, f))

    return fn


for _c in ("core::ptr::mut_ptr::<impl *mut T>", "core::ptr::const_ptr::<impl *const T>"):
    for _m in ("offset", "add", "wrapping_add", "wrapping_offset"):
        M[f"{_c}::{_m}"] = poffs(1)
    for _m in ("sub", "wrapping_sub"):
        M[f"{_c}::{_m}"] = poffs(-1)
    for _m in ("byte_add", "byte_offset", "wrapping_byte_add", "wrapping_byte_offset"):
        M[f"{_c}::{_m}"] = poffs(1, True)
    for _m in ("cast", "cast_mut", "cast_const"):
        M[f"{_c}::{_m}"] = ident
    M[f"{_c}::is_null"] = lambda eng, st, fr, f, args, t: ptr_null(args[0])
    M[f"{_c}::as_ref"] = lambda eng, st, fr, f, args, t: some(args[0])
    M[f"{_c}::as_mut"] = lambda eng, st, fr, f, args, t: some(args[0])


def ptr_null(p):
    return eqv(p, NULL)


NULL = mk("addr", I(0))


@model("core::ptr::null_mut", "core::ptr::null")
def nullp(eng, st, fr, f, args, t):
    return NULL


@model("core::ptr::NonNull::<T>::dangling", "core::ptr::dangling_mut", "core::ptr::dangling", "core::ptr::NonNull::<T>::without_provenance")
def dangling(eng, st, fr, f, args, t):
    return mk("dangling", eng.alignof(targ(eng, f)))


@model("core::ptr::without_provenance_mut", "core::ptr::without_provenance")
def wprov(eng, st, fr, f, args, t):
    return NULL if args[0] is I(0) else mk("poff", NULL, args[0])


@model("core::ptr::NonNull::<T>::as_ptr", "core::ptr::NonNull::<T>::new_unchecked", "core::ptr::NonNull::<T>::cast")
def nn_ptr(eng, st, fr, f, args, t):
    return args[0]


@model("core::ptr::NonNull::<T>::new")
def nn_new(eng, st, fr, f, args, t):
    c = ptr_null(args[0])
    return cases(st, (NOT(c), some(args[0])), (c, none()))


LAY = "core::alloc::Layout"


def layout(s, a):
    return mk("struct", LAY, ("size", "align"), (s, a))


@model("core::alloc::Layout::from_size_align_unchecked")
def lay_u(eng, st, fr, f, args, t):
    return layout(*args)


@model("core::alloc::Layout::new")
def lay_new(eng, st, fr, f, args, t):
    return layout(eng.sizeof(targ(eng, f)), eng.alignof(targ(eng, f)))


@model("core::alloc::Layout::array")
def lay_arr(eng, st, fr, f, args, t):
    v = layout(mul(eng.sizeof(targ(eng, f)), args[0]), eng.alignof(targ(eng, f)))
    c = mk("layout_ok", v)
    return cases(st, (c, ok(v)), (NOT(c), err(mk("layouterr"))))


@model("core::alloc::Layout::from_size_align")
def lay_c(eng, st, fr, f, args, t):
    v = layout(*args)
    c = mk("layout_ok", v)
    return cases(st, (c, ok(v)), (NOT(c), err(mk("layouterr"))))


@model("core::alloc::Layout::size")
def lay_size(eng, st, fr, f, args, t):
    v = args[0]
    if v.op != "struct":
        v = deref_read(eng, st, v)
    return select_f(v, "size")


@model("core::alloc::Layout::align")
def lay_align(eng, st, fr, f, args, t):
    v = args[0]
    if v.op != "struct":
        v = deref_read(eng, st, v)
    return select_f(v, "align")


def memfail(eng, st, fr, t):
    pass


@model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def m_alloc(eng, st, fr, f, args, t):
    st = st.copy()
    p = fresh("mem")
    p = mk("alloc", p, select_f(args[0], "size"), select_f(args[0], "align"))
    eng.emit(st, fr, "alloc", (p, select_f(args[0], "size"), select_f(args[0], "align")), t["sp"])
    return [(st, "ret", p)]


@model("alloc::alloc::realloc")
def m_realloc(eng, st, fr, f, args, t):
    st = st.copy()
    p = mk("alloc", fresh("mem"), args[2], select_f(args[1], "align"))
    eng.emit(st, fr, "realloc", (p, args[0], select_f(args[1], "size"), select_f(args[1], "align"), args[2]), t["sp"])
    return [(st, "ret", p)]


@model("alloc::alloc::dealloc")
def m_dealloc(eng, st, fr, f, args, t):
    st = st.copy()
    eng.emit(st, fr, "dealloc", (args[0], select_f(args[1], "size"), select_f(args[1], "align")), t["sp"])
    return [(st, "ret", UNIT)]


@model("alloc::alloc::handle_alloc_error")
def m_oom(eng, st, fr, f, args, t):
    return panics(eng, st, fr, f, args, t)


# ---------------------------------------------------------------- searches
def ordcond(v, eng=None):
    """condition under which an Ordering value is Equal"""
    if v.op == "cmp":
        return eqi(*v.a)
    if v.op == "variant":
        return B(v.a[2] == "Equal")
    if v.op == "seqcmp":
        return mk("seqeq", *v.a)
    raise Unsupported("ordering " + show(v))


def probe(eng, st, fr, t, fat, call):
    """evaluates a predicate on one arbitrary element q of a slice: [(extra facts, value)]"""
    q = fresh("q", 0, 1 << 62)
    s = st.assume(AND(ge0(q), lt(q, fat.a[3])))
    if s is None:
        return q, []
    n0 = len(s.ev)
    outs = []
    for s2, k, v in call(s, q):
        if k == "panic":
            eng.emit(s2, fr, "panic_in_search", (fat,), t["sp"])
            continue
        fs = tuple(c for c in s2.facts.items if c not in s.facts.set)
        outs.append((fs, v))
    return q, outs


def bsearch(eng, st, fr, t, fat, call):
    st = st.copy()
    q, outs = probe(eng, st, fr, t, fat, call)
    eq = []
    for fs, v in outs:
        c = ordcond(v)
        if c is FALSE:
            continue
        x = c
        for g in fs:
            x = AND(x, g)
        eq.append(x)
    name = mk("search", fat, q, tuple(eq))
    res = []
    i = mk("found", fat.a[0], fat.a[1], fat.a[2], fat.a[3], tuple(subst(x, {q: mk("hole")}) for x in eq))
    RNG[i] = USZ
    for x in eq:
        s = st.assume(AND(ge0(i), lt(i, fat.a[3])))
        if s is not None:
            s = s.assume(subst(x, {q: i}))
        if s is not None:
            res.append((s, "ret", ok(i)))
    j = mk("insertpos", fat.a[0], fat.a[1], fat.a[2], fat.a[3], tuple(subst(x, {q: mk("hole")}) for x in eq))
    RNG[j] = USZ
    s = st.assume(AND(ge0(j), le(j, fat.a[3])))
    if s is not None:
        s = s.assume(mk("nomatch", fat, q, tuple(eq)))
    if s is not None:
        res.append((s, "ret", err(j)))
    return res


@model("core::slice::<impl [T]>::binary_search_by_key")
def bs_key(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    key = deref_read(eng, st, args[1])

    def call(s, q):
        out = []
        for s2, k, v in eng.call_value(s, fr, args[2], [elem(fat, q)], t):
            if k == "ret":
                v = cmpvals(v, key)
            out.append((s2, k, v))
        return out

    return bsearch(eng, st, fr, t, fat, call)


def cmpvals(a, b):
    while a.op == "struct" and len(a.a[2]) == 1:
        n = a.a[1][0]
        a, b = a.a[2][0], select_f(b, n)
    while b.op == "struct" and len(b.a[2]) == 1:
        n = b.a[1][0]
        a, b = select_f(a, n), b.a[2][0]
    if not isint(a) and not isint(b):
        # newtype identifiers: compare their payload
        a, b = select_f(a, "0"), select_f(b, "0")
        for x in (a, b):
            if x.op not in ("int", "poly") and x not in RNG:
                RNG[x] = (0, (1 << 32) - 1)
    return mk("cmp", a, b)


@model("core::slice::<impl [T]>::binary_search_by")
def bs_by(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    return bsearch(eng, st, fr, t, fat, lambda s, q: eng.call_value(s, fr, args[1], [elem(fat, q)], t))


@model("core::slice::<impl [T]>::binary_search")
def bs(eng, st, fr, f, args, t):
    fat = eng.asfat(args[0])
    key = deref_read(eng, st, args[1])

    def call(s, q):
        e = elem(fat, q)
        return [(s, "ret", cmpvals(s.read(*eng.deref(s, e)[:2]), key))]

    return bsearch(eng, st, fr, t, fat, call)


# lexicographic comparison of two mapped slice iterators
@model("core::iter::Iterator::map", "core::iter::Iterator::copied", "core::iter::Iterator::cloned")
def it_map(eng, st, fr, f, args, t):
    fn = args[1] if len(args) > 1 else mk(f["def"].split("::")[-1])
    return mk("struct", "core::iter::Map", ("iter", "f"), (args[0], fn))


def seqterm(eng, st, fr, it, t):
    """the sequence an iterator yields: (length, element q as a term)"""
    if it.op == "struct" and it.a[0] == SI:
        v, i, n = it.a[2]
        q = mk("seqidx")
        RNG[q] = USZ
        return sub(n, i), q, elem(v, add(i, q))
    if it.op == "struct" and it.a[0] == "core::iter::Map":
        n, q, e = seqterm(eng, st, fr, it.a[2][0], t)
        fn = it.a[2][1]
        if fn.op in ("copied", "cloned"):
            return n, q, st.read(e.a[0], e.a[1])
        outs = [o for o in eng.call_value(st, fr, fn, [e], t) if o[1] == "ret"]
        if len(outs) != 1:
            raise Unsupported("mapped iterator")
        return n, q, outs[0][2]
    if it.op == "struct" and it.a[0].split("::")[-1] in ("Skip", "Take", "Rev"):
        n, q, e = seqterm(eng, st, fr, it.a[2][0], t)
        if it.a[0].endswith("Rev"):
            return n, q, subst(e, {q: sub(sub(n, I(1)), q)})
        k = select_f(it, "n")
        if st.facts.decide(le(k, n)) is not True:
            raise Unsupported("iterator " + show(it))
        return (k, q, e) if it.a[0].endswith("Take") else (sub(n, k), q, subst(e, {q: add(q, k)}))
    raise Unsupported("iterator " + show(it))


def unwrap1(v):
    while v.op == "struct" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


@model("core::iter::Iterator::cmp")
def it_cmp(eng, st, fr, f, args, t):
    a = seqterm(eng, st, fr, args[0], t)
    b = seqterm(eng, st, fr, args[1], t)
    return mk("seqcmp", a[0], a[2], b[0], b[2])


@model("core::iter::Iterator::eq")
def it_eq(eng, st, fr, f, args, t):
    a = seqterm(eng, st, fr, args[0], t)
    b = seqterm(eng, st, fr, args[1], t)
    return mk("seqeq", a[0], a[2], b[0], b[2])


# ---------------------------------------------------------------- iterator consumers written as loops
def pyloop(eng, st, fr, t, itroot, step, nextfn=None):
    """loop { match it.next() { None => exit, Some(x) => step(state, x) -> [(state,'back'|'exit'|panic, value)] } }"""
    lid = (eng.newfid(), "py", t["sp"])

    def body(s):
        out = []
        for s2, k, v in si_next(eng, s, fr, None, [mkref(itroot, ())], t):
            if v.a[2] == "None":
                out.append((s2, "exit", None))
            else:
                out.extend(step(s2, v.a[4][0]))
        return out

    return eng.summarise(fr, st, body, lid, t["sp"])


@model(
    "<core::slice::Iter<'a, T> as core::iter::Iterator>::for_each",
    "<core::slice::IterMut<'a, T> as core::iter::Iterator>::for_each",
)
def si_for_each(eng, st, fr, f, args, t):
    st = st.copy()
    root = mk("L", eng.newfid(), 0)
    st.heap[root] = args[0]
    croot = mk("L", eng.newfid(), 0)
    st.heap[croot] = args[1]
    cref = mkref(croot, ())

    def step(s, x):
        out = []
        for s2, k, v in eng.call_value(s, fr, cref, [x], t):
            out.append((s2, "back" if k == "ret" else k, v))
        return out

    return [(s, "ret" if k == "exit" else k, UNIT if k == "exit" else v) for s, k, v in pyloop(eng, st, fr, t, root, step)]


def clipped(adaptor):
    """consumers of a shortened slice iterator"""

    def fn(eng, st, fr, f, args, t):
        w = args[0]
        if w.op != "struct" or "iter" not in w.a[1] or "n" not in w.a[1]:
            return None
        it, k = select_f(w, "iter"), select_f(w, "n")
        if it.op != "struct" or it.a[0] != SI:
            return None
        v, i, n = it.a[2]
        if k.op not in ("int", "poly") and k not in RNG:
            RNG[k] = USZ
        inside = le(add(i, k), n)
        out = []
        for c, yes in ((inside, True), (NOT(inside), False)):
            s = st.assume(c)
            if s is None:
                continue
            if adaptor == "Take":
                cut = mk("struct", SI, ("s", "i", "n"), (v, i, add(i, k) if yes else n))
            else:
                cut = mk("struct", SI, ("s", "i", "n"), (v, add(i, k) if yes else n, n))
            out.extend(si_for_each(eng, s, fr, f, [cut] + list(args[1:]), t))
        return out

    return fn


for _c in ("Take", "Skip"):
    M[f"<core::iter::{_c}<I> as core::iter::Iterator>::for_each"] = clipped(_c)


def bool_outs(eng, outs):
    """splits boolean results"""
    res = []
    for s, k, v in outs:
        if k != "ret":
            res.append((s, k, v))
            continue
        for b in (TRUE, FALSE):
            s2 = s.assume(v if b is TRUE else NOT(v))
            if s2 is not None:
                res.append((s2, "ret", b))
    return res


def si_bool(stopon, stopval, endval, withidx=False):
    def fn(eng, st, fr, f, args, t):
        st = st.copy()
        it = args[0]
        if it.op == "ref" or it.op == "obj":
            itroot, proj, _ = eng.deref(st, it)
            if proj:
                v = st.read(itroot, proj)
                root = mk("L", eng.newfid(), 0)
                st.heap[root] = v
            else:
                root = itroot
        else:
            root = mk("L", eng.newfid(), 0)
            st.heap[root] = it
        croot = mk("L", eng.newfid(), 0)
        st.heap[croot] = args[1]
        cref = mkref(croot, ())

        def step(s, x):
            out = []
            for s2, k, v in bool_outs(eng, eng.call_value(s, fr, cref, [x], t)):
                if k != "ret":
                    out.append((s2, k, v))
                elif v is stopon:
                    i = sub(s2.read(root, (F("i"),)), I(1))
                    out.append((s2, "exit", stopval(x, i)))
                else:
                    out.append((s2, "back", None))
            return out

        return [
            (s, "ret" if k == "exit" else k, (endval if v is None else v) if k == "exit" else v)
            for s, k, v in pyloop(eng, st, fr, t, root, step)
        ]

    return fn


for _c in ("<core::slice::Iter<'a, T> as core::iter::Iterator>", "<core::slice::IterMut<'a, T> as core::iter::Iterator>"):
    M[f"{_c}::any"] = si_bool(TRUE, lambda x, i: TRUE, FALSE)
    M[f"{_c}::all"] = si_bool(FALSE, lambda x, i: FALSE, TRUE)
    M[f"{_c}::position"] = si_bool(TRUE, lambda x, i: some(i), none())
    M[f"{_c}::find"] = None
    del M[f"{_c}::find"]


# ---------------------------------------------------------------- misc
@model("<core::marker::PhantomData<T> as core::default::Default>::default")
def phantom(eng, st, fr, f, args, t):
    return mk("struct", "core::marker::PhantomData", (), ())


@model("core::intrinsics::cold_path")
def cold(eng, st, fr, f, args, t):
    return UNIT


@model("core::intrinsics::likely", "core::intrinsics::unlikely")
def likely(eng, st, fr, f, args, t):
    return args[0]


@model("core::hint::assert_unchecked", "core::intrinsics::assume")
def assume(eng, st, fr, f, args, t):
    s = st.assume(args[0])
    return [] if s is None else [(s, "ret", UNIT)]


@model("core::hint::unreachable_unchecked", "core::intrinsics::unreachable")
def unreach(eng, st, fr, f, args, t):
    return [(st, "unreachable", t["sp"])]


@model("core::hint::black_box", "core::convert::identity", "core::intrinsics::black_box")
def bb(eng, st, fr, f, args, t):
    return args[0]


# ---------------------------------------------------------------- atomics, as seen by one thread
def atomcell(eng, st, p):
    """the number in an atomic: (root, path, value)"""
    root, proj, _ = eng.deref(st, p)
    v = st.read(root, proj)
    while v.op == "struct" and len(v.a[2]) == 1:
        proj = proj + (F(v.a[1][0]),)
        v = v.a[2][0]
    return root, proj, v


def atomic(op):
    def fn(eng, st, fr, f, args, t):
        st = st.copy()
        root, proj, old = atomcell(eng, st, args[0])
        if op == "load":
            return [(st, "ret", old)]
        if op in ("xchg", "store"):
            st.write(root, proj, args[1])
            return [(st, "ret", UNIT if op == "store" else old)]
        if op in ("cxchg", "cxchgweak"):
            out = []
            for c, done in ((eqi(old, args[1]), TRUE), (NOT(eqi(old, args[1])), FALSE)):
                s = st.assume(c)
                if s is not None:
                    s = s.copy()
                    if done is TRUE:
                        s.write(root, proj, args[2])
                    out.append((s, "ret", mk("tuple", ("0", "1"), (old, done))))
            return out
        if op in ("xadd", "xsub"):
            b = 8 * eng.sizeof(targ(eng, f)).a[0]
            for x in (old, args[1]):
                if x.op not in ("int", "poly") and x not in RNG:
                    RNG[x] = (0, (1 << b) - 1)
            new = wrapped(st, add(old, args[1]) if op == "xadd" else sub(old, args[1]), b, 0, (1 << b) - 1)
            st.write(root, proj, new)
            return [(st, "ret", old)]
        out = []
        for c, new in ((le(old, args[1]), args[1] if op == "umax" else old), (lt(args[1], old), old if op == "umax" else args[1])):
            s = st.assume(c)
            if s is not None:
                s = s.copy()
                s.write(root, proj, new)
                out.append((s, "ret", old))
        return out

    return fn


for _o in ("load", "store", "xchg", "cxchg", "cxchgweak", "xadd", "xsub", "umax", "umin"):
    M[f"core::intrinsics::atomic_{_o}"] = atomic(_o)
