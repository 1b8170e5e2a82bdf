"""Reconstructs the tokens a quote!-based derive macro emits, by a path-sensitive dataflow over the MIR of the
macro crate (rustc -Zunpretty=mir). A token is ("t", text), ("group", delimiter, tokens), ("v", origin) for an
interpolated value, or ("?", why) for something the analysis does not follow."""

import re

PUNCT = {
    "colon": ":", "and": "&", "eq": "=", "bang": "!", "semi": ";", "comma": ",", "dot": ".", "lt": "<", "gt": ">", "colon2": "::", "pound": "#",
    "add": "+", "star": "*", "sub": "-", "rarrow": "->", "fat_arrow": "=>", "question": "?", "or": "|", "underscore": "_", "at": "@",
}


class Lost(Exception):
    pass


def functions(text):
    r = {}
    for m in re.finditer(r"^(?:pub )?fn ([^\n(]*)\(([^\n]*)\) -> [^\n]* \{\n(.*?)^\}", text, re.M | re.S):
        blocks = {}
        for b in re.finditer(r"^    (bb\d+)[^:\n]*: \{\n(.*?)^    \}", m.group(3), re.M | re.S):
            blocks[b.group(1)] = [l.strip().rstrip(";") for l in b.group(2).splitlines() if l.strip()]
        r[m.group(1)] = (len(re.findall(r"_\d+: ", m.group(2))), blocks)
    return r


class Run:
    def __init__(self, fns, limit=400):
        self.fns, self.limit, self.out, self.steps, self.frames, self.anon = fns, limit, [], 0, 0, []

    # ---- places: (frame, "_n.f.g"); values: tuples
    def place(self, e, s):
        s = s.strip()
        m = re.fullmatch(r"_\d+", s)
        if m:
            return (e["f"], s)
        m = re.fullmatch(r"\(\*(.*)\)", s)
        if m:
            v = self.read(e, self.place(e, m.group(1)))
            if v[0] == "ref":
                return v[1]
            self.anon.append(v)
            return ("", str(len(self.anon) - 1))
        m = re.fullmatch(r"\((.*)\.(\d+): (.*)\)", s)
        if m:
            f, p = self.place(e, re.sub(r"^\((.*) as (\w+)\)$", r"\1", m.group(1)))
            e["ty"][(f, p + "." + m.group(2))] = m.group(3)
            return (f, p + "." + m.group(2))
        raise Lost("place " + s)

    def read(self, e, pl):
        if pl in e["env"]:
            return e["env"][pl]
        f, p = pl
        if not f and "." not in p:
            return self.anon[int(p)]
        if "." in p:
            base, n = p.rsplit(".", 1)
            v = self.read(e, (f, base))
            if v[0] == "tuple":
                return v[1][int(n)] if int(n) < len(v[1]) else ("?", "field")
            return ("field", v, n, e["ty"].get(pl, ""))
        return ("?", "unset " + p)

    def operand(self, e, s):
        s = s.strip()
        m = re.fullmatch(r"(?:move|copy) (.*)", s)
        if m:
            return self.read(e, self.place(e, m.group(1)))
        m = re.fullmatch(r'const "(.*)"', s)
        if m:
            return ("str", m.group(1))
        return ("?", s)

    def rvalue(self, e, s):
        m = re.fullmatch(r"&(mut )?(.*)", s)
        if m and not m.group(2).startswith("raw"):
            return ("ref", self.place(e, m.group(2)), bool(m.group(1)))
        m = re.fullmatch(r"discriminant\((.*)\)", s)
        if m:
            return ("discr", self.read(e, self.place(e, m.group(1))))
        m = re.fullmatch(r"[\w:]*Delimiter::(\w+)", s)
        if m:
            return ("delim", m.group(1))
        if re.match(r"(move|copy|const) ", s):
            return self.operand(e, s)
        return ("?", s)

    def value(self, e, v):
        """follows references"""
        for _ in range(8):
            if v[0] != "ref":
                return v
            v = self.read(e, v[1])
        return v

    def call(self, e, name, args):
        if re.search(r"TokenStream2?::new$", name):
            return ("ts", ())
        m = re.search(r"quote::__private::push_(\w+)$", name)
        if m:
            pl = args[0][1] if args[0][0] == "ref" else None
            ts = self.read(e, pl) if pl else ("?", "")
            if ts[0] != "ts":
                raise Lost("tokens pushed to an unknown stream")
            k = m.group(1).removesuffix("_spanned")
            if m.group(1).endswith("_spanned"):
                raise Lost("spanned tokens")
            if k in ("ident", "lifetime"):
                t = ("t", args[1][1] if args[1][0] == "str" else self.value(e, args[1])[1])
            elif k == "group":
                g = args[2]
                t = ("group", args[1][1], g[1]) if g[0] == "ts" else ("?", "group")
            elif k in PUNCT:
                t = ("t", PUNCT[k])
            else:
                t = ("?", k)
            e["env"][pl] = ("ts", ts[1] + (t,))
            return ("unit",)
        if re.search(r"ToTokens>::to_tokens$", name):
            pl = args[1][1] if args[1][0] == "ref" else None
            ts = self.read(e, pl) if pl else ("?", "")
            if ts[0] != "ts":
                raise Lost("tokens pushed to an unknown stream")
            v = self.value(e, args[0])
            new = v[1] if v[0] == "ts" else (("v", v),)
            e["env"][pl] = ("ts", ts[1] + new)
            return ("unit",)
        if re.search(r"^<proc_macro::TokenStream as From<.*>>::from$|^<.* as Into<proc_macro::TokenStream>>::into$|^<.*TokenStream2? as Into<.*TokenStream2?>>::into$", name):
            return args[0]
        if re.search(r"parse_macro_input::parse::<(syn::)?DeriveInput>$|^syn::parse::<(syn::)?DeriveInput>$", name):
            return ("parsed", self.value(e, args[0]))
        if re.search(r"Generics::split_for_impl$", name):
            g = self.value(e, args[0])
            return ("tuple", (("impl", g), ("type", g), ("where", g)))
        if re.search(r"as Clone>::clone$", name):
            return self.value(e, args[0])
        r = ("call", name, tuple(self.value(e, a) for a in args))
        for a in args:
            if a[0] == "ref" and a[2]:
                for k in [k for k in e["env"] if k[0] == a[1][0] and k[1].startswith(a[1][1] + ".")]:
                    del e["env"][k]
                e["env"][a[1]] = ("?", "changed by " + name)
                base = a[1]
                while "." in base[1]:
                    base = (base[0], base[1].rsplit(".", 1)[0])
                if base != a[1]:
                    e["env"][base] = ("?", "changed by " + name)
        return r

    def run(self, name, args, env, conds, then):
        n, blocks = self.fns[name]
        self.frames += 1
        f = self.frames
        env = dict(env)
        for i, a in enumerate(args):
            env[(f, f"_{i + 1}")] = a
        self.block(blocks, {"f": f, "env": env, "ty": {}}, "bb0", conds, then, frozenset())

    def block(self, blocks, e, bb, conds, then, seen):
        while True:
            self.steps += 1
            if self.steps > 20000 or len(self.out) > self.limit:
                raise Lost("too many paths")
            if bb in seen:
                raise Lost("loop")
            seen = seen | {bb}
            lines = blocks[bb]
            for l in lines[:-1]:
                m = re.fullmatch(r"(_\d+|\(.*\)) = (.*)", l)
                if m:
                    pl = self.place(e, m.group(1))
                    v = self.rvalue(e, m.group(2))
                    for k in [k for k in e["env"] if k[0] == pl[0] and k[1].startswith(pl[1] + ".")]:
                        del e["env"][k]
                    e["env"][pl] = v
                elif not re.match(r"Storage|FakeRead|nop|Ascribe|PlaceMention", l):
                    raise Lost(l)
            t = lines[-1]
            if t == "return":
                then(e["env"], self.read(e, (e["f"], "_0")), conds)
                return
            if t in ("unreachable", "resume"):
                return
            m = re.fullmatch(r"goto -> (bb\d+)", t)
            if m:
                bb = m.group(1)
                continue
            m = re.match(r"(?:drop\(.*\)|assert\(.*\)) -> \[(?:return|success): (bb\d+)", t)
            if m:
                bb = m.group(1)
                continue
            m = re.fullmatch(r"switchInt\((.*)\) -> \[(.*)\]", t)
            if m:
                v = self.operand(e, m.group(1))
                for arm in m.group(2).split(", "):
                    k, to = arm.split(": ")
                    c = conds + ((v, k),)
                    if v[0] == "discr" and v[1][0] == "parsed" and k != "0":
                        continue  # not a type definition
                    if blocks[to] == ["unreachable"]:
                        continue
                    self.block(blocks, {"f": e["f"], "env": dict(e["env"]), "ty": dict(e["ty"])}, to, c, then, seen)
                return
            m = re.fullmatch(r"(_\d+|\(.*?\)) = (.*) -> (?:\[return: (bb\d+).*\]|unwind.*|bb\d+)", t)
            if m:
                if not m.group(3):
                    return  # diverges
                c = m.group(2)
                d, i = 0, len(c) - 1
                while i >= 0:
                    d += (c[i] == ")") - (c[i] == "(")
                    if not d:
                        break
                    i -= 1
                name, rest = c[:i], c[i + 1 : -1]
                args, depth, cur = [], 0, ""
                for ch in rest:
                    depth += (ch in "(<[") - (ch in ")>]")
                    if ch == "," and not depth:
                        args.append(cur)
                        cur = ""
                    else:
                        cur += ch
                args = [self.operand(e, a) for a in args + ([cur] if cur.strip() else [])]
                pl = self.place(e, m.group(1))
                if name in self.fns:
                    to, ty, f = m.group(3), e["ty"], e["f"]

                    def back(env, v, conds2, pl=pl, to=to, ty=ty, f=f):
                        env = dict(env)
                        env[pl] = v
                        self.block(blocks, {"f": f, "env": env, "ty": dict(ty)}, to, conds2, then, seen)

                    self.run(name, args, e["env"], conds, back)
                    return
                e["env"][pl] = self.call(e, name, args)
                bb = m.group(3)
                continue
            raise Lost(t)


def results(text, entry):
    """(tokens or None, branch conditions) for every path through the macro for a parsed definition"""
    r = Run(functions(text))
    if entry not in r.fns:
        raise Lost("macro not found")
    r.run(entry, [("input",)], {}, (), lambda env, v, c: r.out.append((v, c)))
    return r.out


def show(ts):
    r = []
    for t in ts:
        if t[0] == "t":
            r.append(t[1])
        elif t[0] == "group":
            o, c = {"Brace": "{}", "Parenthesis": "()", "Bracket": "[]"}.get(t[1], ("", ""))
            r.append(o + " " + show(t[2]) + " " + c)
        else:
            r.append("<" + origin(t[1]) + ">" if t[0] == "v" else "<?>")
    return " ".join(r)


def origin(v):
    if v[0] in ("impl", "type", "where"):
        return {"impl": "impl generics", "type": "type generics", "where": "where clause"}[v[0]] + " of " + origin(v[1])
    if v[0] == "field":
        ty = v[3].split("::")[-1]
        b = v[1]
        if b[0] == "field" and b[1][0] == "parsed" or b[0] == "parsed":
            return {"Ident": "the identifier", "Generics": "the generics", "Data": "the body", "Visibility": "the visibility"}.get(ty, "field " + v[2])
        return origin(b) + "." + v[2]
    if v[0] == "parsed":
        return "the definition"
    if v[0] == "call":
        return v[1].split("::")[-1] + "(" + ", ".join(origin(x) for x in v[2]) + ")"
    if v[0] == "ref":
        return "?"
    return v[0] if v[0] != "str" else repr(v[1])


def known(ts):
    return all(t[0] == "t" or t[0] == "group" and known(t[2]) or t[0] == "v" and "?" not in origin(t[1]) for t in ts)
