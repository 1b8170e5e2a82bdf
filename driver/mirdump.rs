//! Dumps the compiler's own view of one crate (MIR, resolved callees, types, signatures, impls)
//! as JSON. It decides nothing: all rules live in /verif/analysis and read this file.
//! Usage: mirdump <rustc arguments>, with MIRDUMP_OUT naming the output file.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;

impl J {
    fn w(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            N(n) => write!(o, "{n}").unwrap(),
            S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{k}\":").unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

fn s(x: impl ToString) -> J {
    S(x.to_string())
}
fn n(x: usize) -> J {
    N(x as i128)
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<(Ty<'tcx>, usize), usize>,
    adts: Vec<DefId>,
    // the definition whose generic parameters and bounds are in scope
    root: usize,
    roots: Vec<DefId>,
    work: Vec<(String, DefId, ty::GenericArgsRef<'tcx>, usize)>,
    seen: HashSet<String>,
    // callees described by the analysis itself, whose bodies are not needed
    stop: HashSet<String>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let p = self.tcx.def_path_str(d);
        if d.is_local() {
            format!("crate::{p}")
        } else {
            p
        }
    }
    // A stable unique key for a definition.
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn konst(&mut self, c: ty::Const<'tcx>) -> J {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return N(v as i128);
        }
        S(format!("{c}"))
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                ty::GenericArgKind::Lifetime(_) => v.push(Null),
                ty::GenericArgKind::Type(t) => {
                    let i = self.ty(t);
                    v.push(N(i as i128))
                }
                ty::GenericArgKind::Const(c) => {
                    let k = self.konst(c);
                    v.push(O(vec![("c", k)]))
                }
                #[allow(unreachable_patterns)]
                _ => v.push(Null),
            }
        }
        A(v)
    }

    fn te(&self) -> TypingEnv<'tcx> {
        if self.root == 0 {
            TypingEnv::fully_monomorphized()
        } else {
            TypingEnv::post_analysis(self.tcx, self.roots[self.root])
        }
    }

    // Requests the body of a definition with the given arguments; returns its key.
    fn inst(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let p = self.path(d);
        if !d.is_local() && (self.stop.contains(&p) || !self.tcx.is_mir_available(d)) {
            return Null;
        }
        if self.tcx.intrinsic(d).is_some() {
            return Null;
        }
        let a = self.tcx.erase_and_anonymize_regions(a);
        let root = if a.has_param() || a.has_aliases() { self.root } else { 0 };
        let mut k = self.key(d);
        if !a.is_empty() {
            write!(k, "<{}>", a.iter().map(|x| format!("{x}")).collect::<Vec<_>>().join(", ")).unwrap();
        }
        if root != 0 {
            write!(k, "@{root}").unwrap();
        }
        if self.seen.insert(k.clone()) {
            self.work.push((k.clone(), d, a, root));
        }
        S(k)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tk = if t.has_param() || t.has_aliases() { (t, self.root) } else { (t, 0) };
        if let Some(i) = self.tymap.get(&tk) {
            return *i;
        }
        let i = self.types.len();
        self.tymap.insert(tk, i);
        self.types.push(Null);
        let disp = format!("{t}");
        let mut o = vec![("s", S(disp))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(x) => {
                o.push(("k", s("int")));
                o.push(("bits", n(x.bit_width().unwrap_or(64) as usize)));
            }
            ty::Uint(x) => {
                o.push(("k", s("uint")));
                o.push(("bits", n(x.bit_width().unwrap_or(64) as usize)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("def", S(self.path(d.did()))));
                let a = self.args(a);
                o.push(("args", a));
                if !self.adts.contains(&d.did()) {
                    self.adts.push(d.did());
                }
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                let l = self.konst(*l);
                o.push(("n", l));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                o.push(("mut", B(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(*e);
                o.push(("e", n(e)));
                o.push(("mut", B(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("def", S(self.path(*d))));
                o.push(("key", S(self.key(*d))));
                let a = self.args(a.skip_binder());
                o.push(("args", a));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("def", S(self.path(*d))));
                o.push(("key", S(self.key(*d))));
                let j = self.inst(*d, *a);
                o.push(("inst", j));
                let a = self.args(*a);
                o.push(("args", a));
            }
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut v = vec![];
                for x in ts.iter() {
                    let i = self.ty(x);
                    v.push(n(i));
                }
                o.push(("es", A(v)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("name", s(p.name)));
                o.push(("idx", n(p.index as usize)));
            }
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = O(o);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        S(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            d.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let t = self.ty(t);
                    A(vec![s("f"), n(f.as_usize()), S(name), n(t)])
                }
                ProjectionElem::Index(l) => A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    A(vec![s("c"), n(offset as usize), B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    A(vec![s("ss"), n(from as usize), n(to as usize), B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => A(vec![s("d"), n(v.as_usize())]),
                x => A(vec![s("?"), S(format!("{x:?}"))]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let t = self.ty(pt.ty);
        A(vec![n(p.local.as_usize()), A(v), n(t)])
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, te: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", n(ti))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(*d, a.skip_binder(), te)));
            return O(o);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                o.push(("def", S(self.path(u.def))));
                o.push(("key", S(self.key(u.def))));
                let a = self.args(u.args);
                o.push(("args", a));
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_usize())));
                } else if u.def.is_local() && self.tcx.trait_of_assoc(u.def).is_none() {
                    let j = self.inst(u.def, u.args);
                    o.push(("cinst", j));
                } else if self.tcx.trait_of_assoc(u.def).is_some() {
                    // resolve an associated constant to the impl it comes from, when known
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, te, u.def, u.args) {
                        o.push(("rkey", S(self.key(i.def_id()))));
                        o.push(("rdef", S(self.path(i.def_id()))));
                        let a = self.args(i.args);
                        o.push(("rargs", a));
                        if i.def_id().is_local() {
                            let j = self.inst(i.def_id(), i.args);
                            o.push(("cinst", j));
                        }
                    }
                }
                if !u.args.has_non_region_param() && u.promoted.is_none() {
                    if let Some(sc) = c.const_.try_eval_scalar_int(self.tcx, te) {
                        o.push(("val", N(sc.to_bits_unchecked() as i128)));
                    }
                }
            }
            Const::Val(v, _) => {
                if let Some(sc) = v.try_to_scalar_int() {
                    o.push(("val", N(sc.to_bits_unchecked() as i128)));
                } else if let ConstValue::ZeroSized = v {
                    o.push(("zst", B(true)));
                } else if t.builtin_deref(true).is_some_and(|x| x.is_str()) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        o.push(("str", S(String::from_utf8_lossy(b).into_owned())));
                    }
                }
            }
            Const::Ty(_, k) => {
                let k = self.konst(k);
                o.push(("cparam", k));
            }
        }
        o.push(("dbg", S(format!("{}", c.const_))));
        O(o)
    }

    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> J {
        let mut o = vec![("def", S(self.path(d))), ("key", S(self.key(d)))];
        let ai = self.args(a);
        o.push(("args", ai));
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", S(self.path(t))));
            if let Some(i) = self.tcx.opt_associated_item(d) {
                o.push(("name", s(i.name())));
            }
        } else if let Some(nm) = self.tcx.opt_item_name(d) {
            o.push(("name", s(nm)));
        }
        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, te, d, a) {
            let r = i.def_id();
            o.push(("rdef", S(self.path(r))));
            o.push(("rkey", S(self.key(r))));
            let ra = self.args(i.args);
            o.push(("rargs", ra));
            o.push(("local", B(r.is_local())));
            match i.def {
                ty::InstanceKind::Item(d) => {
                    let j = self.inst(d, i.args);
                    o.push(("inst", j));
                    if matches!(self.tcx.def_kind(d), DefKind::Closure) {
                        o.push(("shim", s("closure")));
                    }
                }
                x => {
                    o.push(("shim", S(format!("{x:?}").split('(').next().unwrap_or("").to_string())));
                }
            }
        } else {
            o.push(("local", B(false)));
            o.push(("unresolved", B(true)));
        }
        if self.tcx.is_intrinsic(d, self.tcx.item_name(d)) {
            o.push(("intrinsic", B(true)));
        }
        O(o)
    }

    fn operand(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => {
                let p = self.place(p, body);
                O(vec![("k", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(p, body);
                O(vec![("k", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.constant(c, te),
            Operand::RuntimeChecks(r) => O(vec![("k", s("rtcheck")), ("what", S(format!("{r:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let o = self.operand(o, body, te);
                O(vec![("k", s("use")), ("o", o)])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o, body, te);
                let c = self.konst(*c);
                O(vec![("k", s("repeat")), ("o", o), ("n", c)])
            }
            Rvalue::Ref(_, b, p) => {
                let p = self.place(p, body);
                let m = matches!(b, BorrowKind::Mut { .. });
                O(vec![("k", s("ref")), ("mut", B(m)), ("p", p)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, body);
                O(vec![("k", s("use")), ("reborrow", B(m.is_mut())), ("o", O(vec![("k", s("copy")), ("p", p)]))])
            }
            Rvalue::RawPtr(m, p) => {
                let p = self.place(p, body);
                O(vec![("k", s("rawptr")), ("mut", B(matches!(m, RawPtrKind::Mut))), ("p", p)])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let o = self.operand(o, body, te);
                let t = self.ty(*t);
                let ft = self.ty(ft);
                O(vec![("k", s("cast")), ("ck", S(format!("{k:?}"))), ("o", o), ("ty", n(t)), ("from", n(ft))])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let l = self.operand(&b.0, body, te);
                let r = self.operand(&b.1, body, te);
                O(vec![("k", s("bin")), ("op", S(format!("{op:?}"))), ("l", l), ("r", r), ("ty", n(t))])
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let x = self.operand(x, body, te);
                O(vec![("k", s("un")), ("op", S(format!("{op:?}"))), ("o", x), ("ty", n(t))])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p, body);
                O(vec![("k", s("discr")), ("p", p)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for x in ops.iter() {
                    v.push(self.operand(x, body, te));
                }
                let mut o = vec![("k", s("agg")), ("ops", A(v))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("ak", s("array"))),
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, act) => {
                        o.push(("ak", s("adt")));
                        o.push(("def", S(self.path(*d))));
                        o.push(("variant", n(vi.as_usize())));
                        let ad = self.tcx.adt_def(*d);
                        let vv = ad.variant(*vi);
                        o.push(("vname", s(vv.name)));
                        o.push(("enum", B(ad.is_enum())));
                        o.push(("fields", A(vv.fields.iter().map(|f| s(f.name)).collect())));
                        if let Some(a) = act {
                            o.push(("active", n(a.as_usize())));
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("key", S(self.key(*d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", s("rawptr"))),
                    _ => o.push(("ak", s("other"))),
                }
                O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p, body);
                O(vec![("k", s("use")), ("o", O(vec![("k", s("copy")), ("p", p)]))])
            }
            x => O(vec![("k", s("other")), ("s", S(format!("{x:?}")))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => Null,
        }
    }

    fn body(&mut self, body: &Body<'tcx>, te: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(n(self.ty(l.ty)));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(A(vec![n(p.local.as_usize()), s(v.name)]));
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, te);
                        st.push(O(vec![("k", s("=")), ("p", p), ("r", r), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(O(vec![("k", s("setd")), ("p", p), ("v", n(variant_index.as_usize())), ("sp", sp)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let j = match &**i {
                            NonDivergingIntrinsic::Assume(o) => {
                                let o = self.operand(o, body, te);
                                O(vec![("k", s("assume")), ("o", o), ("sp", sp)])
                            }
                            NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                                let a = self.operand(&c.src, body, te);
                                let b = self.operand(&c.dst, body, te);
                                let k = self.operand(&c.count, body, te);
                                O(vec![("k", s("copyno")), ("src", a), ("dst", b), ("n", k), ("sp", sp)])
                            }
                        };
                        st.push(j);
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", n(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let d = self.operand(discr, body, te);
                    let v = targets.iter().map(|(v, b)| A(vec![N(v as i128), n(b.as_usize())])).collect();
                    vec![
                        ("k", s("switch")),
                        ("d", d),
                        ("ty", n(dt)),
                        ("ts", A(v)),
                        ("else", n(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::Return => vec![("k", s("return"))],
                TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("k", s("abort"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(place, body);
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let nd = dt.needs_drop(tcx, te);
                    vec![("k", s("drop")), ("p", p), ("t", n(target.as_usize())), ("u", self.unwind(unwind)), ("nd", B(nd))]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let mut v = vec![];
                    for a in args.iter() {
                        v.push(self.operand(&a.node, body, te));
                    }
                    let mut o = vec![("k", s("call")), ("args", A(v))];
                    if let ty::FnDef(d, a) = ft.kind() {
                        o.push(("fn", self.callee(*d, a.skip_binder(), te)));
                    } else {
                        let f = self.operand(func, body, te);
                        o.push(("ptr", f));
                        let ft = self.ty(ft);
                        o.push(("fty", n(ft)));
                    }
                    let d = self.place(destination, body);
                    o.push(("dst", d));
                    o.push(("t", target.map(|t| n(t.as_usize())).unwrap_or(Null)));
                    o.push(("u", self.unwind(unwind)));
                    o
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, body, te);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, body, te);
                            let i = self.operand(index, body, te);
                            O(vec![("k", s("bounds")), ("len", l), ("index", i)])
                        }
                        AssertKind::Overflow(op, l, r) => {
                            let l = self.operand(l, body, te);
                            let r = self.operand(r, body, te);
                            O(vec![("k", s("overflow")), ("op", S(format!("{op:?}"))), ("l", l), ("r", r)])
                        }
                        _ => O(vec![("k", s("other"))]),
                    };
                    vec![
                        ("k", s("assert")),
                        ("c", c),
                        ("e", B(*expected)),
                        ("m", m),
                        ("t", n(target.as_usize())),
                        ("u", self.unwind(unwind)),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("k", s("goto")), ("t", n(real_target.as_usize()))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("k", s("goto")), ("t", n(real_target.as_usize()))]
                }
                x => vec![("k", s("other")), ("s", S(format!("{x:?}")))],
            };
            o.push(("sp", sp));
            blocks.push(O(vec![("s", A(st)), ("t", O(o)), ("cleanup", B(bb.is_cleanup))]));
        }
        O(vec![("argc", n(body.arg_count)), ("locals", A(locals)), ("names", A(names)), ("blocks", A(blocks))])
    }
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let stop = std::env::var("MIRDUMP_STOP")
            .ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .unwrap_or_default()
            .lines()
            .map(|x| x.to_string())
            .collect();
        let mut d = D {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: vec![],
            root: 0,
            roots: vec![LOCAL_CRATE.as_def_id()],
            work: vec![],
            seen: HashSet::new(),
            stop,
        };
        let mut fns = vec![];
        let eff = tcx.effective_visibilities(());
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.to_def_id().index);
        for l in keys {
            let id = l.to_def_id();
            let kind = tcx.def_kind(id);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. }
                    | DefKind::AssocConst { .. }
                    | DefKind::AnonConst
                    | DefKind::Static { .. }
            );
            if !is_fn && !is_const {
                continue;
            }
            d.roots.push(id);
            d.root = d.roots.len() - 1;
            let mut o = vec![
                ("path", S(d.path(id))),
                ("key", S(d.key(id))),
                ("kind", S(format!("{kind:?}"))),
                ("sp", d.span(tcx.def_span(id))),
            ];
            let root = tcx.typeck_root_def_id(id);
            o.push(("root", S(d.key(root))));
            // generics
            let g = tcx.generics_of(id);
            let mut gs = vec![];
            let mut cur = Some(g);
            let mut chain = vec![];
            while let Some(g) = cur {
                chain.push(g);
                cur = g.parent.map(|p| tcx.generics_of(p));
            }
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    gs.push(A(vec![n(p.index as usize), s(p.name), S(format!("{:?}", p.kind).split_whitespace().next().unwrap_or("").to_string())]));
                }
            }
            o.push(("generics", A(gs)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(id).instantiate_identity().skip_norm_wip();
                o.push(("sig", S(format!("{sig}"))));
                let sig = sig.skip_binder();
                o.push(("unsafe", B(!sig.safety().is_safe())));
                let mut ins = vec![];
                for t in sig.inputs() {
                    ins.push(n(d.ty(*t)));
                }
                o.push(("ins", A(ins)));
                let t = d.ty(sig.output());
                o.push(("out", n(t)));
                o.push(("const", B(tcx.is_const_fn(id))));
                o.push(("reach", B(eff.is_reachable(l))));
                o.push(("exported", B(eff.is_exported(l))));
                o.push(("pub", B(tcx.visibility(id).is_public())));
                o.push(("name", s(tcx.item_name(id))));
                if let Some(i) = tcx.inherent_impl_of_assoc(id) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    let t = d.ty(t);
                    o.push(("self_ty", n(t)));
                }
                if let Some(i) = tcx.trait_impl_of_assoc(id) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    let t = d.ty(t);
                    o.push(("self_ty", n(t)));
                    let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                    o.push(("trait_impl", S(d.path(tr.def_id))));
                }
                if let Some(t) = tcx.trait_of_assoc(id) {
                    o.push(("trait_def", S(d.path(t))));
                }
            }
            if matches!(kind, DefKind::AssocConst { .. }) {
                o.push(("name", s(tcx.item_name(id))));
                if let Some(i) = tcx.trait_impl_of_assoc(id) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    let t = d.ty(t);
                    o.push(("self_ty", n(t)));
                    let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
                    o.push(("trait_impl", S(d.path(tr.def_id))));
                }
                if let Some(i) = tcx.inherent_impl_of_assoc(id) {
                    let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    let t = d.ty(t);
                    o.push(("self_ty", n(t)));
                }
                if let Some(t) = tcx.trait_of_assoc(id) {
                    o.push(("trait_def", S(d.path(t))));
                }
            }
            if matches!(kind, DefKind::Const { .. }) {
                o.push(("name", s(tcx.item_name(id))));
            }
            if !matches!(kind, DefKind::Closure | DefKind::AnonConst) {
                let j = d.inst(id, ty::GenericArgs::identity_for_item(tcx, id));
                o.push(("inst", j));
            }
            fns.push(O(o));
        }
        let mut insts = vec![];
        while let Some((k, id, a, root)) = d.work.pop() {
            d.root = root;
            let te = d.te();
            let kind = tcx.def_kind(id);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
            let i = Instance::new_raw(id, a);
            let body = if is_fn { tcx.instance_mir(ty::InstanceKind::Item(id)) } else { tcx.mir_for_ctfe(id) };
            let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, body.clone()));
            let b = d.body(&body, te);
            let mut ps = vec![];
            if id.is_local() {
                for p in tcx.promoted_mir(id).iter() {
                    let p = i.instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, p.clone()));
                    ps.push(d.body(&p, te));
                }
            }
            let aj = d.args(a);
            insts.push(O(vec![
                ("inst", S(k)),
                ("path", S(d.path(id))),
                ("key", S(d.key(id))),
                ("kind", S(format!("{kind:?}"))),
                ("local", B(id.is_local())),
                ("args", aj),
                ("sp", d.span(tcx.def_span(id))),
                ("body", b),
                ("promoted", A(ps)),
            ]));
        }
        // impls, traits and ADTs
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = d.ty(t);
                    let mut o = vec![("self", n(ti)), ("sp", d.span(tcx.def_span(did)))];
                    if tcx.impl_opt_trait_ref(did).is_some() {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", S(d.path(tr.def_id))));
                        o.push(("traitref", S(format!("{tr}"))));
                        let h = tcx.impl_trait_header(did);
                        o.push(("unsafe", B(!h.safety.is_safe())));
                        let mut items = vec![];
                        for x in tcx.associated_item_def_ids(did) {
                            items.push(s(tcx.item_name(*x)));
                        }
                        o.push(("items", A(items)));
                        o.push(("polarity", S(format!("{:?}", h.polarity))));
                    }
                    let ps = tcx.clauses_of(did).instantiate_identity(tcx);
                    o.push(("preds", A(ps.clauses.iter().map(|p| S(format!("{}", p.clone().skip_norm_wip()))).collect())));
                    impls.push(O(o));
                }
                DefKind::Trait => {
                    let mut o = vec![("path", S(d.path(did))), ("sp", d.span(tcx.def_span(did)))];
                    o.push(("pub", B(eff.is_reachable(id))));
                    o.push(("exported", B(eff.is_exported(id))));
                    let ps = tcx.explicit_super_clauses_of(did);
                    o.push((
                        "supers",
                        A(ps.iter_identity_copied().map(|p| S(format!("{}", p.skip_norm_wip().0))).collect()),
                    ));
                    traits.push(O(o));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if !d.adts.contains(&did) {
                        d.adts.push(did);
                    }
                }
                _ => {}
            }
        }
        // global state and symbols supplied by others
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let foreign = tcx.is_foreign_item(did);
            if let DefKind::Static { mutability, .. } = tcx.def_kind(did) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let te = ty::TypingEnv::fully_monomorphized();
                statics.push(O(vec![
                    ("path", S(d.path(did))),
                    ("sp", d.span(tcx.def_span(did))),
                    ("ty", S(format!("{t}"))),
                    ("mut", B(mutability.is_mut())),
                    ("freeze", B(t.is_freeze(tcx, te))),
                    ("thread_local", B(tcx.is_thread_local_static(did))),
                    ("foreign", B(foreign)),
                ]));
            } else if foreign {
                statics.push(O(vec![("path", S(d.path(did))), ("sp", d.span(tcx.def_span(did))), ("ty", S(String::new())), ("foreign", B(true))]));
            }
        }
        let mut adts = vec![];
        let mut i = 0;
        while i < d.adts.len() {
            let did = d.adts[i];
            i += 1;
            let ad = tcx.adt_def(did);
            let mut vs = vec![];
            for (vi, v) in ad.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = if did.is_local() { n(d.ty(t)) } else { Null };
                    fs.push(A(vec![s(f.name), t, B(f.vis.is_public())]));
                }
                let dv = if ad.is_enum() { N(ad.discriminant_for_variant(tcx, vi).val as i128) } else { N(0) };
                vs.push(O(vec![("name", s(v.name)), ("discr", dv), ("fields", A(fs))]));
            }
            adts.push(O(vec![
                ("path", S(d.path(did))),
                ("local", B(did.is_local())),
                ("enum", B(ad.is_enum())),
                ("exported", B(did.as_local().map(|l| eff.is_exported(l)).unwrap_or(true))),
                ("variants", A(vs)),
            ]));
        }
        let crates = tcx
            .crates(())
            .iter()
            .map(|c| A(vec![s(tcx.crate_name(*c)), B(tcx.extern_crate(*c).map(|e| e.is_direct()).unwrap_or(false))]))
            .collect();
        let types = std::mem::take(&mut d.types);
        let o = O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("fns", A(fns)),
            ("insts", A(insts)),
            ("impls", A(impls)),
            ("traits", A(traits)),
            ("adts", A(adts)),
            ("crates", A(crates)),
            ("statics", A(statics)),
            ("types", A(types)),
        ]);
        let mut st = String::new();
        o.w(&mut st);
        std::fs::write(out, st).unwrap();
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
