"""Hash functions and default component ids."""

from world import *

P32, P64 = 0x01000193, 0x100000001B3
B32, B64 = 0x811C9DC5, 0xCBF29CE484222325
MAXN = 16 if DEEP else 6
LONG = 300


def uty(cr, bits):
    for i, t in enumerate(cr.p.types):
        if t["k"] == "uint" and t["bits"] == bits and t["s"] == f"u{bits}":
            return i
    raise Missing(f"type u{bits}")


def fold(eng, st, bs, bits):
    """FNV-1a of symbolic bytes"""
    h, p = (B32, P32) if bits == 32 else (B64, P64)
    h = I_(h)
    ty = uty(eng.world.cr, bits)
    for b in bs:
        h = eng.bin(st, "BitXor", h, b, ty)
        h = models.wrapped(st, mul(h, I_(p)), bits, 0, (1 << bits) - 1)
    return h


def xor16(eng, st, h):
    if h.op == "int":
        return I_((h.a[0] & 0xFFFF) ^ (h.a[0] >> 16))
    return eng.bin(st, "BitXor", seg(h, 0, 16), seg(h, 16, 16), uty(eng.world.cr, 16))


def agree(sp, st, got, want, what, ctx):
    """three-state: equal by value numbering, refuted by a valuation, or open"""
    if got.op != "poly" and not isint(got):
        return sp.undecided(what, show(got))
    if same(st, got, want):
        return sp.check(True, what)
    if not st.facts.items and not atoms([got, want]) and got.op == "int":
        return sp.check(False, what, f"{ctx}: {show(got)} instead of {show(want)}")
    d = differ(got, want, [f for f in st.facts.items if f.op != "forall"])
    if d:
        env = ", ".join(f"{show(k)}={v}" for k, v in d[0].items())
        return sp.check(False, what, f"{ctx}: gives {d[1]:#x} instead of {d[2]:#x} for {env}")
    sp.undecided(what, f"{ctx}: {show(got)[:200]}")


def bytelist(n, tag="byte"):
    root = mk("obj", mk("param", 0, f"{tag}s{n}"))
    bs = [mk("at", mk("init", root), I_(i)) for i in range(n)]
    for b in bs:
        RNG[b] = (0, 255)
    return mk("fat", root, (), I_(0), I_(n)), bs


def hashes(sp, c):
    sp.rule = "fnv1a"
    for cr in (c, sp.dbg):
        w = World(sp, cr, unroll=LONG + 8)
        w.contracts.clear()
        for n in (*range(MAXN + 1), LONG):
            fat, bs = bytelist(n)
            sym = param("limit", 0, (1 << 64) - 1)
            ks = (*range(n + 3), 255, 1 << 32, (1 << 64) - 1) if n < LONG else (1, 127, 128, 255, 256, 257, LONG - 1, LONG, LONG + 1)
            lims = [(none(), S())] + [(some(I_(k)), S()) for k in ks]
            lims += [(some(sym), S(lt(I_(n), sym)))]
            for l, st in lims:
                for name, bits in (("fnv1a_hash_32", 32), ("fnv1a_hash_64", 64), ("fnv1a_hash_16_xor", 16)):
                    f = cr.fn("", name)
                    sp.at(f)
                    for s, v in rets(sp, w.run("", name, st, [fat, l]), name + " never panics"):
                        k = select_k(s, l, n)
                        e = w.engine()
                        h = fold(e, s, bs[:k], 32 if bits == 16 else bits)
                        if bits == 16:
                            h = xor16(e, s, h)
                        agree(sp, s, v, h, f"{name} is FNV-1a of the requested prefix", f"{n} bytes, limit {show(l)}")
            for name, bits in (("fnv1a_hash_str_32", 32), ("fnv1a_hash_str_64", 64), ("fnv1a_hash_str_16_xor", 16)):
                f = cr.fn("", name)
                sp.at(f)
                for s, v in rets(sp, w.run("", name, S(), [fat]), name + " never panics"):
                    e = w.engine()
                    h = fold(e, s, bs, 32 if bits == 16 else bits)
                    if bits == 16:
                        h = xor16(e, s, h)
                    agree(sp, s, v, h, f"{name} is FNV-1a of the whole string", f"{n} bytes")


def select_k(s, l, n):
    """prefix length for this limit"""
    x = l.a[4][0] if l.a[2] == "Some" else I_(0)
    return x.a[0] if x.op == "int" and 0 < x.a[0] <= n else n


def default_ids(sp, c):
    sp.rule = "default-id"
    for cr in (c, sp.dbg):
        w = World(sp, cr, unroll=LONG + 8)
        w.contracts.clear()
        ci = [i for i in cr.p.insts.values() if i["path"].endswith("component::Component::ID")]
        if len(ci) != 1:
            raise Missing("Component::ID")
        for n in (*range(MAXN + 1), LONG):
            fat, bs = bytelist(n, "name")
            e = w.engine({"Self": {"Component::NAME": fat}})
            sp.fns.add(ci[0]["path"])
            outs = e.exec_body(ci[0], ci[0]["body"], [], S(), 1, keep=True)
            for s, v in rets(sp, outs, "the default id can be computed"):
                r = cell(s, "id", v)
                got = w.one("ComponentTypeId", "into_u16", s, [v])
                agree(sp, s, got, xor16(e, s, fold(e, s, bs, 32)), "a default component id is the 16 bit fold of FNV-1a of the name", f"name of {n} bytes")
