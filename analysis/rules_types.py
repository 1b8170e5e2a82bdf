"""Borrow and thread safety of the public interface: client programs that must be refused by the type checker or
the borrow checker. Each has a twin that differs only in the offending construct; the twin has to be accepted,
otherwise the program says nothing and the obligation is left undecided. Nothing is run: the compiler only checks."""

import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from spec import basename

REPO = os.environ.get("VERIF_REPO", "/repo")
RUSTC = ["rustc", "+nightly", "--edition", "2021", "--emit=metadata", "--crate-type", "lib", "--error-format=json"]

PRE = """#![allow(warnings)]
#![no_std]
extern crate alloc;
extern crate shard_ecs;
"""
HEAD = """use core::ops::{Index, IndexMut};
pub struct A(u32);
pub struct B(u64);
impl Component for A { const NAME: &'static str = "A"; }
impl Component for B { const NAME: &'static str = "B"; }
pub fn keep<T>(_: T) {}
pub fn touch<T: ?Sized>(_: &mut T) {}
pub fn see<T: ?Sized>(_: &T) {}
pub fn clone_<T: Clone>(_: T) {}
pub fn send_<T: Send>(_: T) {}
pub fn sync_<T: Sync>(_: T) {}
"""
IMPORTS = ["", "archetype_registry::", "registry::", "entity_registry::", "descriptors::", "archetype::", "archetype_descriptor::", "component_descriptor::"]
CANDIDATES = ["(A, B)", "A", "fn(&ArchetypeDescriptor) -> bool"]


class Compiler:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="shardtypes.")
        self.n = 0
        p = subprocess.run(
            RUSTC + ["--crate-name", "shard_ecs", "-Awarnings", "-o", self.dir + "/libshard_ecs.rmeta", "src/lib.rs"], cwd=REPO, capture_output=True, text=True
        )
        if p.returncode:
            raise RuntimeError("the library does not compile")
        self.pool = ThreadPoolExecutor(8)
        self.head = ""
        l = [f"use shard_ecs::{m}*;\n" for m in IMPORTS]
        jobs = [self.run(m) for m in l]
        self.head = "".join(m for m, j in zip(l, jobs) if not j.result())

    def close(self):
        self.pool.shutdown()
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, text):
        """error codes of the program, None for an error without a code"""
        self.n += 1
        p = f"{self.dir}/w{self.n}"
        return self.pool.submit(self._run, p, PRE + self.head + HEAD + text if self.head else PRE + text)

    def _run(self, p, text):
        with open(p + ".rs", "w") as f:
            f.write(text)
        r = subprocess.run(
            RUSTC + ["-L", self.dir, "--extern", f"shard_ecs={self.dir}/libshard_ecs.rmeta", "-o", p + ".rmeta", p + ".rs"], capture_output=True, text=True
        )
        codes = set()
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                codes.add("?")
                continue
            if d.get("level", "").startswith("error") and not d["message"].startswith("aborting"):
                codes.add((d.get("code") or {}).get("code") or "?")
        if r.returncode and not codes:
            codes.add("?")
        return codes


class Suite:
    """pairs of programs, decided together"""

    def __init__(self, sp, cc):
        self.sp, self.cc, self.todo = sp, cc, []

    def add(self, f, what, bad, good, codes, site=None):
        self.todo.append((f, what, self.cc.run(bad), self.cc.run(good), set(codes.split()), site))

    def finish(self):
        for f, what, bad, good, codes, site in self.todo:
            b, g = bad.result(), good.result()
            if g:
                self.sp.undecided(what, f"the comparison program is refused: {sorted(g)}", f)
            elif b and not b & codes:
                self.sp.undecided(what, f"the program is refused for another reason: {sorted(b)}", f)
            else:
                self.sp.check(b, what, f"the compiler accepts the offending program (expected {' or '.join(sorted(codes))})", f, site)


def types(s):
    """splits a comma-separated list of types"""
    r, depth, cur = [], 0, ""
    for i, ch in enumerate(s):
        if ch in "<([":
            depth += 1
        elif ch in ")]" or ch == ">" and s[i - 1] != "-":
            depth -= 1
        if ch == "," and not depth:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return r + [cur.strip()] if cur.strip() else r


def signature(f):
    s = re.sub(r"^for<[^>]*> ", "", f["sig"])
    s = re.sub(r"^(unsafe )?(extern \"\w+\" )?fn", "", s)
    depth = 0
    for i, ch in enumerate(s):
        depth += (ch == "(") - (ch == ")")
        if not depth:
            break
    out = s[i + 1 :].strip()
    return types(s[1:i]), out[2:].strip() if out.startswith("->") else ""


def client(t, sub):
    """a type as a client writes it"""
    t = re.sub(r"'\w+ ", "", t)
    t = re.sub(r"(?:\b\w+::)+(\w+)", r"\1", t)
    t = re.sub(r"<'\w+>", "", t)
    for a, b in sub.items():
        t = re.sub(rf"\b{a}\b", b, t)
    return t


class Call:
    """a call of a public method of the type owning `r`, with every other argument taken from a parameter"""

    def __init__(self, f, owner, trait, sub):
        args, self.out = signature(f)
        gen = [n for _, n, k in sorted(f["generics"]) if k == "Type"]
        lead = "" if not gen else "::<" + ", ".join(sub[n] for n in gen) + ">"
        self.recv = args[0] if args else ""
        self.mut = bool(re.match(r"&('\w+ )?mut ", self.recv))
        path = f"<{owner} as {trait}>" if trait else owner
        self.head = f"{path}::{f['name']}{'' if trait else lead}"
        self.params = [client(t, sub) for t in args[1:]]

    def decl(self, n=1):
        return "".join(f", p{i}_{j}: {t}" for j in range(n) for i, t in enumerate(self.params))

    def expr(self, j=0, recv=None):
        a = [recv or ("&mut r" if self.mut else "&r")] + [f"p{i}_{j}" for i in range(len(self.params))]
        return f"{self.head}({', '.join(a)})"


def exposed(rel, owner):
    """the exported safe methods of a type with a receiver, and the traits they implement"""
    r = []
    for f in rel.p.fns:
        if not f.get("exported") or "sig" not in f or f.get("unsafe") or "_self" not in f or basename(f["_self"]) != owner:
            continue
        args, _ = signature(f)
        if args and re.match(rf"&('\w+ )?(mut )?([\w:]+::)?{owner}(<[^>]*>)?$", args[0]):
            r.append(f)
    return r


def resolve(cc, fs, owner):
    """for each method an instance of its generics accepted by the compiler"""
    jobs = []
    for f in fs:
        gen = [n for _, n, k in sorted(f["generics"]) if k == "Type"]
        tr = f["_trait"]
        if tr and tr not in ("Index", "IndexMut"):
            continue
        if tr:
            tr = tr + "<u16>"
        l = []
        for c in itertools.product(CANDIDATES, repeat=len(gen)):
            call = Call(f, owner, tr, dict(zip(gen, c)))
            l.append((call, cc.run(f"pub fn w(mut r: {owner}{call.decl()}) {{ keep({call.expr()}); }}")))
        jobs.append((f, l))
    for f, l in jobs:
        good = [c for c, j in l if not j.result()]
        yield f, good[0] if good else None


BORROW = "E0499 E0502 E0505 E0506"
OWNERS = ["Registry", "ArchetypeRegistry", "EntityRegistry", "Archetype"]


def with_compiler(g):
    def rule(sp, rel):
        cc = Compiler()
        try:
            s = Suite(sp, cc)
            g(sp, rel, cc, s)
            s.finish()
        finally:
            cc.close()

    rule.__name__, rule.__module__ = g.__name__, g.__module__
    return rule


@with_compiler
def borrows(sp, rel, cc, suite):
    """results that refer into a registry borrow it for as long as they live"""
    sp.rule = "results borrow their owner"
    for owner in OWNERS:
        fs = [f for f in exposed(rel, owner)]
        for f in fs:
            sp.fns.add(f["path"])
        refs = [f for f in fs if "'" in signature(f)[1] or "impl " in signature(f)[1]]
        for f, call in resolve(cc, refs, owner):
            sp.at(f)
            if call is None:
                sp.undecided("borrow", "no instance of the function is accepted")
                continue
            exclusive = bool(re.search(r"&('\w+ )?mut |Mut\w*Tuple<", call.out))
            forms = [("the result", call.expr())]
            if re.match(r"impl [\w:]*Iterator", call.out) and "'" in re.sub(r" \+ '\w+$", "", call.out):
                forms.append(("an item of the result", f"{call.expr()}.next().unwrap()"))
            for what, e in forms:
                head = f"pub fn w(mut r: {owner}{call.decl()}) {{ let mut x = {e}; "
                suite.add(f, f"{what} cannot be kept across a modification", head + "touch(&mut r); keep(x); }", head + "keep(x); touch(&mut r); }", BORROW)
                suite.add(f, f"{what} cannot outlive the owner", head + "drop(r); keep(x); }", head + "keep(x); drop(r); }", BORROW)
                if exclusive:
                    suite.add(f, f"{what} excludes any other access", head + "see(&r); keep(x); }", head + "keep(x); see(&r); }", BORROW)
                    h = f"pub fn w(mut r: {owner}{call.decl(2)}) {{ let mut x = {e}; "
                    e2 = e.replace(call.expr(), call.expr(1))
                    suite.add(f, f"{what} cannot be obtained twice at once", h + f"keep({e2}); keep(x); }}", h + f"keep(x); keep({e2}); }}", BORROW)
                    b = f"pub fn w(mut r: {owner}{call.decl()}) {{ {{}}({e}); }}"
                    suite.add(f, f"{what} cannot be duplicated", b.replace("{}(", "clone_("), b.replace("{}(", "keep("), "E0277")


MUTATORS = {
    "Registry": ["create_entity", "destroy_entity", "remove_entity", "add_component", "remove_component"],
    "ArchetypeRegistry": ["find_or_create_archetype", "find_or_create_archetype_adding_component", "find_or_create_archetype_removing_component"],
    "EntityRegistry": ["create_entity", "destroy_entity"],
}


@with_compiler
def mutators(sp, rel, cc, suite):
    """modifying operations need exclusive access"""
    sp.rule = "modifications need exclusive access"
    for owner, names in MUTATORS.items():
        fs = [f for f in exposed(rel, owner) if f["name"] in names and not f["_trait"]]
        for f, call in resolve(cc, fs, owner):
            sp.at(f)
            if call is None:
                sp.undecided("exclusive access", "no instance of the function is accepted")
                continue
            d = call.decl()
            suite.add(
                f,
                "cannot be called through a shared reference",
                f"pub fn w(r: &{owner}{d}) {{ keep({call.head}({', '.join(['r'] + [f'p{i}_0' for i in range(len(call.params))])})); }}",
                f"pub fn w(r: &mut {owner}{d}) {{ keep({call.head}({', '.join(['r'] + [f'p{i}_0' for i in range(len(call.params))])})); }}",
                "E0308 E0596",
            )
            h = f"pub fn w(mut r: {owner}{d}) {{ let x = &r; "
            suite.add(f, "cannot be called while a reference is alive", h + f"keep({call.expr()}); keep(x); }}", h + f"keep(x); keep({call.expr()}); }}", BORROW)


@with_compiler
def components(sp, rel, cc, suite):
    """what may be stored, and by whom groups may be implemented"""
    sp.rule = "bounds of components and groups"
    imp = "impl Component for N { const NAME: &'static str = \"N\"; }\n"
    site = "src/descriptors/component.rs"
    f = {"path": "crate::descriptors::component::Component", "sp": site}
    suite.add(f, "a type that cannot be sent to another thread is no component", "pub struct N(*mut u8); unsafe impl Sync for N {}\n" + imp,
              "pub struct N(*mut u8); unsafe impl Sync for N {} unsafe impl Send for N {}\n" + imp, "E0277")
    suite.add(f, "a type that cannot be shared between threads is no component", "pub struct N(*mut u8); unsafe impl Send for N {}\n" + imp,
              "pub struct N(*mut u8); unsafe impl Sync for N {} unsafe impl Send for N {}\n" + imp, "E0277")
    suite.add(f, "a type with interior mutability without synchronisation is no component", "pub struct N(core::cell::Cell<u8>);\n" + imp, "pub struct N(u8);\n" + imp, "E0277")
    suite.add(f, "a type with unsynchronised reference counts is no component", "pub struct N(alloc::rc::Rc<u8>);\n" + imp, "pub struct N(alloc::sync::Arc<u8>);\n" + imp, "E0277")
    suite.add(f, "a type that borrows is no component", "pub struct N<'a>(&'a u8); impl<'a> Component for N<'a> { const NAME: &'static str = \"N\"; }",
              "pub struct N(&'static u8);\n" + imp, "E0310 E0477 E0478")
    suite.add(f, "a generic component needs components bounds", "pub struct N<T>(T); impl<T: 'static> Component for N<T> { const NAME: &'static str = \"N\"; }",
              "pub struct N<T>(T); impl<T: Send + Sync + 'static> Component for N<T> { const NAME: &'static str = \"N\"; }", "E0277")
    f = {"path": "crate::descriptors::component_group::ComponentGroup", "sp": "src/descriptors/component_group.rs"}
    for t, u in (("alloc::rc::Rc<u8>", "A"), ("(A, *mut u8)", "(A, B)"), ("(alloc::rc::Rc<u8>, B)", "(A, B)"), ("(&'static mut u8, A)", "(A, B)"), ("u8", "A")):
        suite.add(f, f"{t} is no group of components", f"pub fn w<T: ComponentGroup>() {{}} pub fn v() {{ w::<{t}>(); }}",
                  f"pub fn w<T: ComponentGroup>() {{}} pub fn v() {{ w::<{u}>(); }}", "E0277")
    for owner in OWNERS:
        f = {"path": "crate::" + owner, "sp": "src"}
        if owner != "EntityRegistry":
            suite.add(f, "the owner of components cannot be duplicated", f"pub fn w(r: {owner}) {{ clone_(r); }}", f"pub fn w(r: {owner}) {{ keep(r); }}", "E0277")


@with_compiler
def filters(sp, rel, cc, suite):
    """iterators holding a client's filter are not more thread-safe than the filter"""
    sp.rule = "iterators do not launder thread safety"
    for owner in ("Registry", "ArchetypeRegistry"):
        fs = [f for f in exposed(rel, owner) if sum(k == "Type" for _, _, k in f["generics"]) == 2 and "impl " in signature(f)[1]]
        for f, call in resolve(cc, fs, owner):
            sp.at(f)
            if call is None:
                sp.undecided("filter", "no instance of the function is accepted")
                continue
            h = re.sub(r", fn\(.*\) -> bool>$", ", _>", call.head)
            e = f"{h}({'&mut r' if call.mut else '&r'}, move |_| {{ let _ = &rc; true }})"
            d = re.sub(r"\bp\b", "d", e.replace("move |_| { let _ = &rc; true }", "move |d| { *c.borrow_mut() = Some(KEEP); true }"))
            b = f"pub fn w(mut r: {owner}, c: &'static core::cell::RefCell<Option<TYPE>>) {{ for _ in {d} {{}} }}"
            suite.add(f, "what the filter is shown cannot be kept", b.replace("TYPE", "&'static ArchetypeDescriptor").replace("KEEP", "d"),
                      b.replace("TYPE", "u8").replace("KEEP", "d.len()"), "? E0521 E0597 E0505")
            for k in ("send_", "sync_"):
                b = f"pub fn w(mut r: {owner}, rc: alloc::rc::Rc<u8>) {{ {{}}({e}); }}"
                suite.add(f, f"with an unsynchronised filter the iterator is not {'sendable' if k == 'send_' else 'shareable'}", b.replace("{}(", k + "("), b.replace("{}(", "keep("), "E0277")


# functions that read or write component storage without checking what they are given
UNSAFE = {
    "Archetype": [
        "get_component_unchecked", "get_component_unchecked_mut", "get_fuzzy_components_unchecked", "get_fuzzy_components_unchecked_mut",
        "read_component_unchecked", "get_slices_unchecked_exact_mut", "get_slices_unchecked_exact", "get_fuzzy_slices_unchecked",
        "get_fuzzy_slices_unchecked_mut", "get_entity_fuzzy_slices_unchecked", "get_entity_fuzzy_slices_unchecked_mut", "push_entity_unchecked",
        "push_uninitialized_entity", "decrement_len_unchecked", "write_single_component_unchecked", "write_entity_unchecked", "swap_drop_unchecked",
        "swap_to_last_unchecked", "swap_remove_unchecked", "swap_entities", "drop_entity", "drop_entities", "read_components_exact_unchecked",
        "copy_common_components_between_archetypes_unchecked",
    ],
    "ArchetypeRegistry": ["get_unchecked", "get_unchecked_mut"],
    "ArchetypeDescriptor": ["components_unchecked"],
    "ComponentDescriptor": ["drop_handler_wrapper"],
    "ComponentGroup": [
        "as_sorted_pointers", "read_from_sorted_pointers", "pointers_as_ref_tuple", "pointers_as_mut_ref_tuple", "slice_unchecked", "slice_unchecked_mut",
    ],
}


def unsafety(sp, rel):
    """functions that trust their caller with memory are unsafe to call; what they work on is not exposed"""
    sp.rule = "trusting functions are unsafe"
    for f in rel.p.fns:
        if "sig" not in f or "name" not in f or not f.get("exported"):
            continue
        owners = {basename(f.get("_self", "")), (f.get("trait_def") or "").split("::")[-1], (f.get("trait_impl") or "").split("::")[-1]}
        for o, names in UNSAFE.items():
            if o in owners and f["name"] in names and (o == "ComponentGroup" or not f.get("trait_impl")):
                sp.at(f)
                sp.fns.add(f["path"])
                sp.check(f["unsafe"], "can only be called in an unsafe block", "the function is safe to call with any arguments")
    sp.rule = "storage is not exposed"
    for a in rel.p.adts.values():
        if a["local"] and basename(a["path"]) in OWNERS:
            for v in a["variants"]:
                for n, _, pub in v["fields"]:
                    f = {"path": a["path"], "sp": "src"}
                    sp.check(not pub, f"field {n} is private", "clients can replace the field", f)
    sp.rule = "groups are sealed"
    traits = {t["path"]: t for t in rel.p.traits}
    g = [t for t in rel.p.traits if basename(t["path"]) == "ComponentGroup"]
    for t in g:
        f = {"path": t["path"], "sp": t["sp"]}
        seal = []
        for s in t["supers"]:
            m = re.match(r"<Self as ([\w:]+)>|Self: ([\w:]+)", s)
            n = (m.group(1) or m.group(2)) if m else s
            l = [x for x in rel.p.traits if x["path"].split("::")[-1] == n.split("::")[-1]]
            seal += l
        hidden = [x for x in seal if not x["exported"]]
        sp.check(hidden, "requires a trait that clients cannot name", f"supertraits: {t['supers']}", f)
        for x in hidden:
            for i in rel.p.impls:
                if i.get("trait", "").split("::")[-1] == basename(x["path"]):
                    ty = rel.p.ty(i["self"])
                    f2 = {"path": x["path"], "sp": i["sp"]}
                    bound = any("Component" in p for p in i["preds"])
                    sp.check(ty["k"] == "tuple" or bound, f"implementation for {ty['s']} covers components and their tuples only", "the implementation covers types of clients", f2)
