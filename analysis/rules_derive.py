"""The derive macro: for every form a type definition can take, the compiler's view of the derived implementation
(generic parameters, predicates, items, values of the constants) is compared with that of an implementation written
by hand for the same definition. Nothing is run except the macro, by the compiler that expands it."""

import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """#![allow(warnings)]
#![no_std]
extern crate alloc;
pub mod bounds {
    pub trait Shape { type Area; const N: usize; }
    impl Shape for u8 { type Area = u32; const N: usize = 3; }
    pub trait Over<'a> {}
    impl<'a> Over<'a> for u8 {}
}
const fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
"""
USES = """
    use shard_ecs::*;
    use crate::bounds::*;
    use core::marker::PhantomData;
"""
# definition, header of the impl written by hand, instances to evaluate
FORMS = [
    ("pub struct S;", "impl Component for S", ["S"]),
    ("pub struct S();", "impl Component for S", ["S"]),
    ("pub struct S {}", "impl Component for S", ["S"]),
    ("pub struct S(u32);", "impl Component for S", ["S"]),
    ("struct S(pub u32, pub(crate) u64);", "impl Component for S", ["S"]),
    ("pub struct S { pub a: u8, b: u64 }", "impl Component for S", ["S"]),
    ("#[derive(Clone, Copy, Debug)] #[repr(C, align(64))] pub struct S { a: u8 }", "impl Component for S", ["S"]),
    ("/// documented\n #[derive(Clone)] #[allow(dead_code)] pub(super) struct S { /// field\n a: alloc::vec::Vec<u8> }", "impl Component for S", ["S"]),
    ("pub enum S { A, B(u64), C { x: u8 } }", "impl Component for S", ["S"]),
    ("#[repr(u8)] pub enum S { A = 3, B = 9 }", "impl Component for S", ["S"]),
    ("pub enum S {}", "impl Component for S", ["S"]),
    ("pub union S { a: u8, b: u32 }", "impl Component for S", ["S"]),
    ("pub struct Position2Äß(f32, f32);", "impl Component for Position2Äß", ["Position2Äß"]),
    ("pub struct lower_case_name(u8);", "impl Component for lower_case_name", ["lower_case_name"]),
    ("pub struct UPPER9(u8);", "impl Component for UPPER9", ["UPPER9"]),
    ("pub struct __Leading(u8);", "impl Component for __Leading", ["__Leading"]),
    ("pub struct G<T: Send + Sync + 'static>(T);", "impl<T: Send + Sync + 'static> Component for G<T>", ["G<u8>", "G<[u64; 4]>"]),
    ("pub struct G<T>(T) where T: Send + Sync + 'static;", "impl<T> Component for G<T> where T: Send + Sync + 'static", ["G<u8>"]),
    ("pub struct G<T>(T) where T: Send + Sync, T: 'static;", "impl<T> Component for G<T> where T: Send + Sync, T: 'static", ["G<u8>"]),
    ("pub enum G<T: Send + Sync + 'static> { A(T), B }", "impl<T: Send + Sync + 'static> Component for G<T>", ["G<u8>"]),
    ("pub struct G<T: Send + Sync + 'static = u16>(T);", "impl<T: Send + Sync + 'static> Component for G<T>", ["G", "G<u8>"]),
    ("pub struct G<const N: usize>([u8; N]);", "impl<const N: usize> Component for G<N>", ["G<0>", "G<7>"]),
    ("pub struct G<const N: usize = 5, const B: bool = true>([u8; N]);", "impl<const N: usize, const B: bool> Component for G<N, B>", ["G", "G<2>", "G<1, false>"]),
    ("pub struct G<T: Send + Sync + 'static, const N: usize>([T; N]);", "impl<T: Send + Sync + 'static, const N: usize> Component for G<T, N>", ["G<u8, 3>"]),
    ("pub struct G<const N: usize, T>([T; N]) where T: Send + Sync + Copy + 'static;", "impl<const N: usize, T> Component for G<N, T> where T: Send + Sync + Copy + 'static", ["G<3, u8>"]),
    ("pub struct G<A, B, C>(A, B, C) where A: Send + Sync + 'static, B: Send + Sync + 'static, C: Send + Sync + 'static;",
     "impl<A, B, C> Component for G<A, B, C> where A: Send + Sync + 'static, B: Send + Sync + 'static, C: Send + Sync + 'static", ["G<u8, u16, u32>"]),
    ("pub struct G<T: Shape>(T, T::Area) where T: Send + Sync + 'static, T::Area: Send + Sync + 'static;",
     "impl<T: Shape> Component for G<T> where T: Send + Sync + 'static, T::Area: Send + Sync + 'static", ["G<u8>"]),
    ("pub struct G<T: Shape<Area = u32> + Send + Sync + 'static>(T);", "impl<T: Shape<Area = u32> + Send + Sync + 'static> Component for G<T>", ["G<u8>"]),
    ("pub struct G<T>(T) where for<'a> T: Over<'a> + Send + Sync + 'static;", "impl<T> Component for G<T> where for<'a> T: Over<'a> + Send + Sync + 'static", ["G<u8>"]),
    ("pub struct G<T: ?Sized + Send + Sync + 'static>(alloc::boxed::Box<T>);", "impl<T: ?Sized + Send + Sync + 'static> Component for G<T>", ["G<str>", "G<u8>"]),
    ("pub struct G<'a>(PhantomData<&'a u8>) where 'a: 'static;", "impl<'a> Component for G<'a> where 'a: 'static", ["G<'static>"]),
    ("pub struct G<'a: 'static, T: Send + Sync + 'static, const N: usize>(&'a [T; N]);", "impl<'a: 'static, T: Send + Sync + 'static, const N: usize> Component for G<'a, T, N>", ["G<'static, u8, 2>"]),
    ("pub struct G<F>(F) where F: Fn(u8) -> u8 + Send + Sync + 'static;", "impl<F> Component for G<F> where F: Fn(u8) -> u8 + Send + Sync + 'static", ["G<fn(u8) -> u8>"]),
    ("pub struct G<T>(PhantomData<T>) where T: Send + Sync + 'static, [T; 2]: Copy;", "impl<T> Component for G<T> where T: Send + Sync + 'static, [T; 2]: Copy", ["G<u8>"]),
    ("pub struct G<T: Component>(T);", "impl<T: Component> Component for G<T>", ["G<super::Inner>"]),
]


class Macro:
    """the derive macro and the library with the derive feature, compiled into a scratch folder"""

    def __init__(self, macro_only=False):
        self.dir = tempfile.mkdtemp(prefix="shardderive.")
        d = self.dir + "/m"
        os.makedirs(d)
        shutil.copytree(REPO + "/shard_ecs_derive/src", d + "/src")
        shutil.copy(REPO + "/shard_ecs_derive/Cargo.toml", d)
        with open(d + "/Cargo.toml", "a") as f:
            f.write("\n[workspace]\n")
        for l in (REPO + "/shard_ecs_derive/Cargo.lock", "/opt/vp/locks/shard_ecs_derive.Cargo.lock"):
            if os.path.exists(l):
                shutil.copy(l, d + "/Cargo.lock")
                break
        e = {k: v for k, v in os.environ.items() if k not in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER")}
        p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--message-format=json", "--target-dir", self.dir + "/t"], cwd=d, env=e, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("the macro crate does not compile: " + p.stderr[-300:])
        self.deps = []
        for l in p.stdout.splitlines():
            a = json.loads(l) if l.startswith("{") else {}
            for f in a.get("filenames", []):
                if f.endswith(".rmeta"):
                    self.deps += ["-L", os.path.dirname(f), "--extern", a["target"]["name"].replace("-", "_") + "=" + f]
        if macro_only:
            return
        self.so = self.dir + "/t/debug/libshard_ecs_derive.so"
        self.root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
        p = subprocess.run(
            ["rustc", "+nightly", "--edition", "2021", "--emit=metadata", "--crate-type", "lib", "--crate-name", "shard_ecs", "-Awarnings", "--cfg", 'feature="derive"',
             "--extern", "shard_ecs_derive=" + self.so, "-o", self.dir + "/libshard_ecs.rmeta", "src/lib.rs"], cwd=REPO, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("the library does not compile with the derive feature: " + p.stderr[-300:])
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def mir(self):
        cmd = ["rustc", "+nightly", "-Zunpretty=mir", "-Zmir-opt-level=0", "--edition", "2021", "--crate-type", "proc-macro", "--extern", "proc_macro", *self.deps]
        p = subprocess.run(cmd + ["src/lib.rs"], cwd=self.dir + "/m", capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("no MIR of the macro crate: " + p.stderr[-300:])
        return p.stdout

    def compile(self, n, text):
        """(errors, dump)"""
        p = f"{self.dir}/w{n}"
        with open(p + ".rs", "w") as f:
            f.write(text)
        env = dict(os.environ, LD_LIBRARY_PATH=self.root + "/lib", MIRDUMP_OUT=p + ".json")
        cmd = [HERE + "/build/mirdump", p + ".rs", "--crate-name", f"w{n}", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--sysroot", self.root, "--out-dir", self.dir]
        cmd += ["-L", self.dir, "-L", self.dir + "/t/debug", "--extern", f"shard_ecs={self.dir}/libshard_ecs.rmeta", "--extern", "shard_ecs_derive=" + self.so]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(p + ".json"):
            return re.findall(r"^error.*", r.stderr, re.M) or [r.stderr[-200:] or "?"], None
        return [], json.load(open(p + ".json"))


def program(form, derived, checks=True):
    d, head, insts = form
    name = re.search(r"(?:struct|enum|union) (\w+)", d).group(1)
    out = HEAD + "pub mod m {\n" + USES
    out += "    pub struct Inner(u8); impl Component for Inner { const NAME: &'static str = \"Inner\"; }\n"
    out += "    pub mod n {\n" + USES
    out += "    #[derive(Component)]\n    " if derived else "    "
    out += d + "\n"
    if not derived:
        where = ""
        h = head
        if " where " in head:
            h, where = head.split(" where ", 1)
            where = " where " + where
        out += f"    {h}{where} {{ const NAME: &'static str = \"{name}\"; }}\n"
    if checks:
        for i in insts:
            c = f"<{i} as Component>"
            out += f"""
    const _: () = assert!(crate::same({c}::NAME, "{name}"));
    const _: () = assert!({c}::ID.into_u16() == shard_ecs::fnv1a::fnv1a_hash_str_16_xor("{name}"));
    const _: () = assert!({c}::DESCRIPTOR.component_type_id.into_u16() == {c}::ID.into_u16());
    const _: () = assert!({c}::DESCRIPTOR.size as usize == core::mem::size_of::<{i}>());
    const _: () = assert!({c}::DESCRIPTOR.align as usize == core::mem::align_of::<{i}>());
"""
    return out + "    }\n}\n"


def implementation(d):
    """generics, predicates and items of the implementation of Component in m::n"""
    for i in d["impls"]:
        if i.get("trait", "").endswith("::Component") and "Inner" not in i["traitref"]:
            return {"trait": i["traitref"], "preds": sorted(i["preds"]), "items": sorted(i["items"]), "polarity": i["polarity"], "unsafe": i["unsafe"]}
    return None


def expansions(sp, rel):
    sp.rule = "the derived implementation equals the one written by hand"
    at = {"path": "shard_ecs_derive::derive_component", "sp": "shard_ecs_derive/src/lib.rs"}
    sp.fns.add("shard_ecs_derive::derive_component")
    m = Macro()
    try:
        with ThreadPoolExecutor(8) as pool:
            jobs = []
            for k, f in enumerate(FORMS):
                jobs.append((f, pool.submit(m.compile, f"d{k}", program(f, True)), pool.submit(m.compile, f"h{k}", program(f, False)), pool.submit(m.compile, f"p{k}", program(f, True, False))))
            for f, d, h, p in jobs:
                d, h, p = d.result(), h.result(), p.result()
                what = re.sub(r"\s+", " ", f[0])
                if h[0]:
                    sp.undecided(what, f"the implementation by hand is refused: {h[0][:2]}", at)
                    continue
                if not sp.check(not p[0], f"{what}: the derived implementation is accepted", f"{p[0][:2]}", at):
                    continue
                sp.check(not d[0], f"{what}: name, id and descriptor are those of the type", f"{d[0][:2]}", at)
                a, b = implementation(p[1]), implementation(h[1])
                for x in ("trait", "preds", "items", "polarity", "unsafe"):
                    if b is None:
                        sp.undecided(what, "implementation not found", at)
                        break
                    sp.check(a and a[x] == b[x], f"{what}: same {x}", f"derived {a and a[x]}, by hand {b[x]}", at)
    finally:
        m.close()


def flat(ts):
    for t in ts:
        yield t
        if t[0] == "group":
            yield from flat(t[2])


def judge(ts):
    """None if the tokens are those of the implementation by hand, else (definite, why)"""
    import template as T

    ts = list(ts)
    while len(ts) > 1 and ts[0] == ("t", "#") and ts[1][0] == "group":
        ts = ts[2:]
    kinds = {"impl generics of the generics", "type generics of the generics", "where clause of the generics", "the identifier"}
    o = lambda t: T.origin(t[1]) if t[0] == "v" else None
    plain = all(t[0] in ("t", "group") or o(t) in kinds for t in flat(ts))
    if not ts or ts[0] != ("t", "impl") or ts[-1][0] != "group" or ("t", "for") not in ts:
        return False, "not an implementation"
    k = ts.index(("t", "for"))
    gen, rest, body = ts[1:k], ts[k + 1 : -1], list(ts[-1][2])
    if gen[-1:] != [("t", "Component")]:
        return False, "not an implementation of Component"
    lead = [o(t) for t in gen if t[0] == "v"]
    if lead != ["impl generics of the generics"]:
        return plain, "the generics of the type are not those of the implementation"
    if [o(t) for t in rest] != ["the identifier", "type generics of the generics", "where clause of the generics"]:
        return plain, "not for the type with all its generics and where clauses"
    names = [body[i + 1][1] for i in range(len(body) - 1) if body[i] == ("t", "const") and body[i + 1][0] == "t"]
    if names != ["NAME"]:
        return plain, f"defines {names}"
    if ("t", "=") not in body:
        return False, "no value"
    e = body[body.index(("t", "=")) + 1 :]
    while e and e[-1] == ("t", ";"):
        e.pop()
    if len(e) > 2 and e[-1][0] == "group" and e[-2] == ("t", "!") and e[-3] == ("t", "stringify") and [o(t) for t in e[-1][2]] == ["the identifier"]:
        if all(t in (("t", "core"), ("t", "std"), ("t", "::")) for t in e[:-3]):
            return None
    return plain, f"the name is {T.show(e)}"


def emitted(sp, rel):
    """for any definition whatsoever: the tokens on every path through the macro"""
    import template as T

    sp.rule = "the emitted implementation is the one written by hand"
    at = {"path": "shard_ecs_derive::derive_component", "sp": "shard_ecs_derive/src/lib.rs"}
    src = open(REPO + "/shard_ecs_derive/src/lib.rs").read()
    m = re.search(r"#\[proc_macro_derive\(\s*Component\b[^\]]*\]\s*(?:#\[[^\]]*\]\s*)*pub fn (\w+)", src)
    if not m:
        sp.undecided("entry", "no derive macro for Component found", at)
        return
    sp.fns.add("shard_ecs_derive::" + m.group(1))
    mac = Macro(True)
    try:
        text = mac.mir()
    finally:
        mac.close()
    for k, (v, conds) in enumerate(T.results(text, m.group(1))):
        sp.paths += 1
        where = "".join(f", when {T.origin(c)} is {x}" for c, x in conds if c[0] != "discr" or c[1][0] != "parsed")
        if v[0] != "ts":
            sp.undecided("path" + where, "its result is " + T.origin(v), at)
            continue
        r = judge(v[1])
        if r is None or r[0]:
            sp.check(r is None, f"path {k} through the macro{where}: all generics, bounds and where clauses, name of the type, defaults", f"{r and r[1]}: {T.show(v[1])}", at)
        else:
            sp.undecided("path" + where, f"{r[1]}: {T.show(v[1])}", at)
