// MIR dumper for the checks in /verif: runs as RUSTC_WORKSPACE_WRAPPER and, for the crate named
// in VP_CRATE, writes one JSON file (VP_OUT) with the resolved, generic ("polymorphically
// monomorphised") MIR of every function body reachable from every function of the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::TypeVisitableExt;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context per root
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    envname: String,
    queue: VecDeque<(String, Instance<'tcx>, Option<Promoted>, u32)>,
    seen: HashMap<String, ()>,
    out: BTreeMap<String, J>,
    types: BTreeMap<String, Ty<'tcx>>,
    newtypes: Vec<Ty<'tcx>>,
    depth: u32,
    adts: BTreeMap<String, J>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

impl<'tcx> Cx<'tcx> {
    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let name = with_no_trimmed_paths!(format!("{}", t));
        if !self.types.contains_key(&name) {
            self.types.insert(name.clone(), t);
            self.newtypes.push(t);
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                self.adt(def.did());
                let a: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
                J::O(vec![("k", s("adt")), ("path", s(p)), ("args", J::A(a))])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("to", i)])
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("to", i)])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Tuple(ts) => {
                let a = ts.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("args", J::A(a))])
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                J::O(vec![("k", s("slice")), ("of", i)])
            }
            ty::Array(x, n) => {
                let i = self.ty(*x);
                J::O(vec![
                    ("k", s("array")),
                    ("of", i),
                    ("len", s(with_no_trimmed_paths!(format!("{}", n)))),
                ])
            }
            ty::FnDef(d, args) => {
                let args = ty::fold_regions(tcx, args.skip_binder(), |_, _| tcx.lifetimes.re_erased);
                let f = self.resolve(*d, args);
                J::O(vec![("k", s("fndef")), ("name", s(name)), ("fn", J::O(f))])
            }
            ty::Closure(d, args) => {
                let args = ty::fold_regions(tcx, *args, |_, _| tcx.lifetimes.re_erased);
                let a: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![
                    ("k", s("closure")),
                    ("path", s(path(tcx, *d))),
                    ("name", s(name)),
                    ("upvars", J::A(a)),
                    ("key", s(self.enqueue(Instance::new_raw(*d, args), None))),
                ])
            }
            ty::Alias(..) => J::O(vec![("k", s("alias")), ("name", s(name))]),
            _ => J::O(vec![("k", s("other")), ("name", s(name))]),
        }
    }

    fn garg(&mut self, g: ty::GenericArg<'tcx>) -> J {
        if let Some(t) = g.as_type() {
            self.ty(t)
        } else if let Some(c) = g.as_const() {
            J::O(vec![("k", s("const")), ("name", s(with_no_trimmed_paths!(format!("{}", c))))])
        } else {
            J::O(vec![("k", s("region"))])
        }
    }

    fn adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let p = path(tcx, d);
        if self.adts.contains_key(&p) {
            return;
        }
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                fs.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", s(with_no_trimmed_paths!(format!("{}", fty)))),
                ]));
            }
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::N(discr)),
                ("fields", J::A(fs)),
            ]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let dtor = tcx.adt_destructor(d).map(|x| path(tcx, x.did));
        let j = J::O(vec![
            ("kind", s(kind)),
            ("variants", J::A(vs)),
            ("local", J::B(d.is_local())),
            ("drop", dtor.map(s).unwrap_or(J::Null)),
        ]);
        self.adts.insert(p, j);
    }

    fn key(&self, inst: Instance<'tcx>, prom: Option<Promoted>) -> String {
        let base = with_no_trimmed_paths!(match inst.def {
            InstanceKind::Item(d) =>
                format!("{}", self.tcx.def_path_str_with_args(d, inst.args)),
            _ => format!("{:?}", inst),
        });
        // def_path_str hides the impl's own identity for e.g. two `next` impls on the same type;
        // add the def path hash-free debug path to keep keys unique.
        let uniq = match inst.def {
            InstanceKind::Item(d) => self.tcx.def_path(d).to_string_no_crate_verbose(),
            _ => String::new(),
        };
        match prom {
            Some(p) => format!("{} @{} [{}] #promoted{}", base, uniq, self.envname, p.as_usize()),
            None => format!("{} @{} [{}]", base, uniq, self.envname),
        }
    }

    fn external_ok(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        if self.depth > 7 {
            return false;
        }
        let p = path(self.tcx, d);
        const STOP: &[&str] = &[
            "core::fmt", "std::fmt", "alloc::", "std::io::Error", "std::io::error", "core::panicking", "std::rt", "std::panicking",
            "core::str", "std::str", "core::num::", "std::hash", "core::hash", "std::collections", "core::slice::sort",
            "core::ptr::drop", "core::unicode", "core::char", "arbitrary::", "refpool::", "std::process", "std::string", "std::vec", "std::boxed",
        ];
        // generic code that only drives an iterator
        if p.starts_with("std::fmt::Debug") && p.ends_with("::entries") {
            return true;
        }
        !STOP.iter().any(|x| p.starts_with(x))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, prom: Option<Promoted>) -> String {
        let k = self.key(inst, prom);
        if !self.seen.contains_key(&k) {
            self.seen.insert(k.clone(), ());
            let d = inst.def_id();
            let nd = if d.is_local() { 0 } else { self.depth + 1 };
            if self.external_ok(d) {
                self.queue.push_back((k.clone(), inst, prom, nd));
            }
        }
        k
    }

    fn resolve(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o = vec![("path", s(path(tcx, d)))];
        let a: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
        o.push(("args", J::A(a)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            let v = tcx.parent(d);
            let (adt, i) = match of {
                rustc_hir::def::CtorOf::Variant => {
                    let e = tcx.parent(v);
                    (e, tcx.adt_def(e).variant_index_with_id(v).as_usize())
                }
                rustc_hir::def::CtorOf::Struct => (v, 0),
            };
            o.push(("ctor", J::A(vec![s(path(tcx, adt)), J::N(i as i128)])));
            return o;
        }
        if tcx.is_intrinsic(d, rustc_span::sym::abort) {}
        if let Some(i) = tcx.intrinsic(d) {
            o.push(("intrinsic", s(i.name.to_string())));
            return o;
        }
        let mut found = Instance::try_resolve(tcx, self.env, d, args).unwrap_or(None);
        if let Some(t) = tcx.trait_of_assoc(d) {
            // the standard library's internal specialisations behave alike; the general form is the one to follow
            if !t.is_local() && (found.is_none() || path(tcx, t).ends_with("::zip::ZipImpl")) {
                found = self.general(t, d, args).or(found);
            }
        }
        match Ok::<_, ()>(found) {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(rd) => {
                    if tcx.intrinsic(rd).is_none() {
                        let k = self.enqueue(inst, None);
                        o.push(("res", s(k)));
                    }
                    o.push(("rpath", s(path(tcx, rd))));
                    let ra: Vec<J> = inst.args.iter().map(|g| self.garg(g)).collect();
                    o.push(("rargs", J::A(ra)));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                        let st = with_no_trimmed_paths!(format!("{}", st));
                        o.push(("self", s(st)));
                    }
                    o.push(("local", J::B(rd.is_local())));
                }
                other => {
                    o.push(("shim", s(format!("{:?}", other))));
                    if let InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) = other {
                        let cargs = inst.args;
                        if let ty::Closure(cd, ca) = cargs.type_at(0).kind() {
                            let ci = Instance::new_raw(*cd, ca);
                            let k = self.enqueue(ci, None);
                            o.push(("closure_body", s(k)));
                        }
                        let _ = closure;
                    }
                }
            },
            _ => {
                o.push(("unresolved", J::B(true)));
                // an iterator of the caller's: what the trait provides stands for its own version of it
                let t = tcx.trait_of_assoc(d).map(|t| path(tcx, t)).unwrap_or_default();
                if (t.starts_with("std::iter::") || t.starts_with("core::iter::")) && tcx.defaultness(d).has_value() && tcx.is_mir_available(d) {
                    let k = self.enqueue(Instance::new_raw(d, args), None);
                    o.push(("provided", s(k)));
                }
            }
        }
        o
    }

    /// the `default` item of the impl of `t` that applies to the arguments, whatever specialises it
    fn general(&self, t: DefId, d: DefId, args: GenericArgsRef<'tcx>) -> Option<Instance<'tcx>> {
        fn fit<'tcx>(p: Ty<'tcx>, a: Ty<'tcx>, m: &mut Vec<Option<ty::GenericArg<'tcx>>>) -> bool {
            match (p.kind(), a.kind()) {
                (ty::Param(x), _) => {
                    let x = x.index as usize;
                    match m[x] {
                        None => {
                            m[x] = Some(a.into());
                            true
                        }
                        Some(o) => o == a.into(),
                    }
                }
                (ty::Adt(d1, g1), ty::Adt(d2, g2)) => {
                    d1 == d2
                        && g1.iter().zip(g2.iter()).all(|(x, y)| match (x.as_type(), y.as_type()) {
                            (Some(x), Some(y)) => fit(x, y, m),
                            _ => x == y || x.as_region().is_some(),
                        })
                }
                (ty::Ref(_, x, m1), ty::Ref(_, y, m2)) => m1 == m2 && fit(*x, *y, m),
                _ => p == a,
            }
        }
        let tcx = self.tcx;
        for im in tcx.all_impls(t) {
            let Some(item) = tcx.impl_item_implementor_ids(im).get(&d).copied() else { continue };
            if tcx.trait_of_assoc(item).is_some() || !tcx.defaultness(item).is_default() {
                continue;
            }
            let r = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let g = tcx.generics_of(im);
            let mut m = vec![None; g.count()];
            let ok = r.args.iter().zip(args.iter()).all(|(x, y)| match (x.as_type(), y.as_type()) {
                (Some(x), Some(y)) => fit(x, y, &mut m),
                _ => true,
            });
            if !ok {
                continue;
            }
            let ident = ty::GenericArgs::identity_for_item(tcx, im);
            let mut ia = vec![];
            let mut whole = true;
            for (i, x) in ident.iter().enumerate() {
                match m[i] {
                    Some(v) => ia.push(v),
                    None if x.as_region().is_some() => ia.push(tcx.lifetimes.re_erased.into()),
                    None => whole = false,
                }
            }
            if !whole {
                continue;
            }
            let ia = tcx.mk_args(&ia);
            return Some(Instance::new_raw(item, args.rebase_onto(tcx, t, ia)));
        }
        None
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let npt = pt.projection_ty(tcx, e);
            let j = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => {
                    let t = self.ty(npt.ty);
                    J::O(vec![("p", s("deref")), ("ty", t)])
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t);
                    let t = self.ty(t);
                    J::O(vec![("p", s("field")), ("i", J::N(f.as_usize() as i128)), ("ty", t)])
                }
                ProjectionElem::Index(l) => {
                    J::O(vec![("p", s("index")), ("local", J::N(l.as_usize() as i128))])
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![
                    ("p", s("cindex")),
                    ("off", J::N(offset as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("p", s("subslice")),
                    ("from", J::N(from as i128)),
                    ("to", J::N(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    J::O(vec![("p", s("downcast")), ("v", J::N(v.as_usize() as i128))])
                }
                _ => J::O(vec![("p", s("cast"))]),
            };
            proj.push(j);
            pt = npt;
        }
        let t = self.norm(pt.ty);
        let t = self.ty(t);
        J::O(vec![("l", J::N(p.local.as_usize() as i128)), ("proj", J::A(proj)), ("ty", t)])
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        match self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("o", s("const"))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap();
            o.push(("fn", J::O(self.resolve(*d, args))));
            return J::O(o);
        }
        let tj = self.ty(t);
        o.push(("ty", tj));
        match c.const_ {
            mir::Const::Ty(_, k) => {
                o.push(("param", s(with_no_trimmed_paths!(format!("{}", k)))));
            }
            mir::Const::Unevaluated(uv, _) => {
                let r = c.const_.eval(tcx, self.env, c.span);
                if uv.promoted.is_none() {
                    o.push(("cpath", s(path(tcx, uv.def))));
                }
                let mut known: Vec<(&'static str, J)> = vec![];
                if let Ok(v) = r {
                    self.cval(v, t, &mut known);
                }
                if !known.is_empty() && known.iter().all(|x| x.0 != "opaque") {
                    o.append(&mut known);
                } else if let Some(p) = uv.promoted {
                    let inst = Instance::new_raw(uv.def, uv.args);
                    let k = self.enqueue(inst, Some(p));
                    o.push(("uneval", s(k)));
                } else {
                    match Instance::try_resolve(tcx, self.env, uv.def, uv.args) {
                        Ok(Some(inst)) => {
                            let k = self.enqueue(inst, None);
                            o.push(("uneval", s(k)));
                        }
                        _ => o.push(("opaque", J::B(true))),
                    }
                    let a: Vec<J> = uv.args.iter().map(|g| self.garg(g)).collect();
                    o.push(("cargs", J::A(a)));
                }
            }
            mir::Const::Val(v, _) => self.cval(v, t, &mut o),
        }
        J::O(o)
    }

    /// a constant of an enum, struct or tuple type, taken apart
    fn cagg(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let t = self.norm(t);
        if !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) || t.has_param() || t.has_escaping_bound_vars() {
            return None;
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(v, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields {
            let tj = self.ty(*ft);
            let mut o = vec![("o", s("const")), ("ty", tj)];
            self.cval(*fv, *ft, &mut o);
            fs.push(J::O(o));
        }
        let name = match t.kind() {
            ty::Adt(a, _) => {
                self.ty(t);
                path(self.tcx, a.did())
            }
            _ => "tuple".to_string(),
        };
        Some(J::O(vec![
            ("path", s(name)),
            ("v", J::N(d.variant.map_or(0, |x| x.as_usize() as i128))),
            ("fs", J::A(fs)),
        ]))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        if !matches!(v, ConstValue::ZeroSized) {
            if let Some(a) = self.cagg(v, t) {
                o.push(("cagg", a));
                return;
            }
        }
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let n = i.to_bits(size);
                let val = if t.is_signed() { size.sign_extend(n) as i128 } else { n as i128 };
                if size.bytes() == 16 && !t.is_signed() && (n >> 127) == 1 {
                    o.push(("opaque", J::B(true)));
                } else {
                    o.push(("int", J::N(val)));
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                } else {
                    o.push(("opaque", J::B(true)));
                }
            }
            _ => o.push(("opaque", J::B(true))),
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, x: &Operand<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("o", s("copy")), ("p", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("o", s("move")), ("p", self.place(body, *p))]),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(c) => J::O(vec![("o", s("rtcheck")), ("c", s(format!("{:?}", c)))]),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(x, _) => J::O(vec![("r", s("use")), ("a", self.operand(b, x))]),
            Rvalue::Repeat(x, n) => J::O(vec![
                ("r", s("repeat")),
                ("a", self.operand(b, x)),
                ("n", s(with_no_trimmed_paths!(format!("{}", n)))),
            ]),
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))),
                ("p", self.place(b, *p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("rawptr")),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("p", self.place(b, *p)),
            ]),
            Rvalue::Cast(k, x, t) => {
                let tj = self.ty(*t);
                let from = x.ty(b, self.tcx);
                let fj = self.ty(from);
                J::O(vec![
                    ("r", s("cast")),
                    ("kind", s(format!("{:?}", k))),
                    ("a", self.operand(b, x)),
                    ("ty", tj),
                    ("from", fj),
                ])
            }
            Rvalue::BinaryOp(op, xs) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(b, &xs.0)),
                ("b", self.operand(b, &xs.1)),
                ("ty", {
                    let t = xs.0.ty(b, self.tcx);
                    self.ty(t)
                }),
            ]),
            Rvalue::UnaryOp(op, x) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(b, x)),
                ("ty", {
                    let t = x.ty(b, self.tcx);
                    self.ty(t)
                }),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![("r", s("discr")), ("p", self.place(b, *p))]),
            Rvalue::Aggregate(k, xs) => {
                let ops: Vec<J> = xs.iter().map(|x| self.operand(b, x)).collect();
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("kind", s("array")));
                        let t = self.ty(*t);
                        o.push(("ty", t));
                    }
                    AggregateKind::Tuple => o.push(("kind", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        o.push(("kind", s("adt")));
                        self.adt(*d);
                        o.push(("path", s(path(self.tcx, *d))));
                        let a: Vec<J> = args.iter().map(|g| self.garg(g)).collect();
                        o.push(("args", J::A(a)));
                        o.push(("v", J::N(v.as_usize() as i128)));
                        if let Some(f) = f {
                            o.push(("union", J::N(f.as_usize() as i128)));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("kind", s("closure")));
                        o.push(("path", s(path(self.tcx, *d))));
                        let ci = Instance::new_raw(*d, args);
                        let kk = self.enqueue(ci, None);
                        o.push(("body", s(kk)));
                    }
                    AggregateKind::RawPtr(t, m) => {
                        o.push(("kind", s("rawptr")));
                        let t = self.ty(*t);
                        o.push(("ty", t));
                        o.push(("mut", J::B(m.is_mut())));
                    }
                    _ => o.push(("kind", s("other"))),
                }
                o.push(("ops", J::A(ops)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("a", J::O(vec![("o", s("copy")), ("p", self.place(b, *p))])),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(m.is_mut())),
                ("p", self.place(b, *p)),
            ]),
            _ => J::O(vec![("r", s("other")), ("d", s(format!("{:?}", r)))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
            UnwindAction::Cleanup(b) => J::N(b.as_usize() as i128),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![
                        J::N(p.local.as_usize() as i128),
                        s(v.name.to_string()),
                    ]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                let j = match &x.kind {
                    StatementKind::Assign(a) => J::O(vec![
                        ("s", s("assign")),
                        ("p", self.place(b, a.0)),
                        ("v", self.rvalue(b, &a.1)),
                        ("at", self.line(x.source_info.span)),
                    ]),
                    StatementKind::SetDiscriminant { place, variant_index } => J::O(vec![
                        ("s", s("setdiscr")),
                        ("p", self.place(b, **place)),
                        ("v", J::N(variant_index.as_usize() as i128)),
                    ]),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(x) => J::O(vec![
                            ("s", s("assume")),
                            ("a", self.operand(b, x)),
                        ]),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => J::O(vec![
                            ("s", s("copynonoverlapping")),
                            ("src", self.operand(b, &c.src)),
                            ("dst", self.operand(b, &c.dst)),
                            ("n", self.operand(b, &c.count)),
                            ("at", self.line(x.source_info.span)),
                        ]),
                    },
                    StatementKind::StorageLive(l) => {
                        J::O(vec![("s", s("live")), ("l", J::N(l.as_usize() as i128))])
                    }
                    StatementKind::StorageDead(l) => {
                        J::O(vec![("s", s("dead")), ("l", J::N(l.as_usize() as i128))])
                    }
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", J::N(target.as_usize() as i128)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("t", s("switch")));
                    let dty = discr.ty(b, tcx);
                    o.push(("a", self.operand(b, discr)));
                    o.push(("ty", self.ty(dty)));
                    let mut arms = vec![];
                    for (v, tb) in targets.iter() {
                        arms.push(J::A(vec![J::N(v as i128), J::N(tb.as_usize() as i128)]));
                    }
                    o.push(("arms", J::A(arms)));
                    o.push(("else", J::N(targets.otherwise().as_usize() as i128)));
                }
                TerminatorKind::UnwindResume => o.push(("t", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("t", s("terminate"))),
                TerminatorKind::Return => o.push(("t", s("return"))),
                TerminatorKind::Unreachable => o.push(("t", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("t", s("drop")));
                    o.push(("p", self.place(b, *place)));
                    o.push(("to", J::N(target.as_usize() as i128)));
                    o.push(("unwind", self.unwind(unwind)));
                    let pty = place.ty(b, tcx).ty;
                    let nd = pty.needs_drop(tcx, self.env);
                    o.push(("needs", J::B(nd)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("t", s("call")));
                    o.push(("f", self.operand(b, func)));
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, &x.node)).collect();
                    o.push(("args", J::A(a)));
                    o.push(("dest", self.place(b, *destination)));
                    o.push((
                        "to",
                        target.map(|t| J::N(t.as_usize() as i128)).unwrap_or(J::Null),
                    ));
                    o.push(("unwind", self.unwind(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("t", s("assert")));
                    o.push(("a", self.operand(b, cond)));
                    o.push(("expected", J::B(*expected)));
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned".into(),
                        AssertKind::NullPointerDereference => "null".into(),
                        _ => "other".into(),
                    };
                    o.push(("msg", s(kind)));
                    o.push(("to", J::N(target.as_usize() as i128)));
                    o.push(("unwind", self.unwind(unwind)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", J::N(real_target.as_usize() as i128)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("t", s("goto")));
                    o.push(("to", J::N(real_target.as_usize() as i128)));
                }
                k => {
                    o.push(("t", s("other")));
                    o.push(("d", s(format!("{:?}", k))));
                }
            }
            o.push(("at", self.line(t.source_info.span)));
            blocks.push(J::O(vec![
                ("st", J::A(st)),
                ("term", J::O(o)),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        let d = inst.def_id();
        J::O(vec![
            ("path", s(path(tcx, d))),
            ("local", J::B(d.is_local())),
            ("argc", J::N(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("at", self.line(tcx.def_span(d))),
            ("blocks", J::A(blocks)),
        ])
    }

    fn get_body(&mut self, inst: Instance<'tcx>, prom: Option<Promoted>) -> Option<Body<'tcx>> {
        let tcx = self.tcx;
        let d = match inst.def {
            InstanceKind::Item(d) => d,
            _ => return None,
        };
        if tcx.is_foreign_item(d) || !d.is_local() && !tcx.is_mir_available(d) {
            return None;
        }
        let body: &Body<'tcx> = match prom {
            Some(p) => &tcx.promoted_mir(d)[p],
            None => match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    tcx.instance_mir(inst.def)
                }
                DefKind::Const { .. }
                | DefKind::AssocConst { .. }
                | DefKind::Static { .. }
                | DefKind::AnonConst => tcx.mir_for_ctfe(d),
                _ => return None,
            },
        };
        let r = tcx.try_instantiate_and_normalize_erasing_regions(
            inst.args,
            self.env,
            ty::EarlyBinder::bind(tcx, body.clone()),
        );
        match r {
            Ok(b) => Some(b),
            Err(_) => {
                let b = ty::EarlyBinder::bind(tcx, body.clone()).instantiate(tcx, inst.args).skip_norm_wip();
                Some(tcx.erase_and_anonymize_regions(b))
            }
        }
    }

    fn run_queue(&mut self) {
        let tcx = self.tcx;
        let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        loop {
            while let Some((k, inst, prom, depth)) = self.queue.pop_front() {
                self.depth = depth;
                if let Some(b) = self.get_body(inst, prom) {
                    if !inst.def_id().is_local() && b.basic_blocks.len() > 150 {
                        continue;
                    }
                    let j = self.body(&b, inst);
                    self.out.insert(k, j);
                }
            }
            // iterator methods of every type seen
            let nts = std::mem::take(&mut self.newtypes);
            if nts.is_empty() {
                break;
            }
            let _ = iter_trait;
        }
    }
}

// ---------------------------------------------------------------- signatures with regions
fn rname(r: ty::Region<'_>) -> String {
    match r.kind() {
        ty::ReStatic => "'static".to_string(),
        ty::ReEarlyParam(p) => format!("{}", p.name),
        ty::ReLateParam(p) => format!("late:{:?}", p.kind),
        k => format!("{:?}", k),
    }
}

fn sigty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, im: Option<DefId>, depth: usize) -> J {
    let garg = |g: ty::GenericArg<'tcx>| -> J {
        if let Some(t) = g.as_type() {
            sigty(tcx, t, im, depth + 1)
        } else if let Some(r) = g.as_region() {
            J::O(vec![("k", s("region")), ("r", s(rname(r)))])
        } else {
            J::O(vec![("k", s("const"))])
        }
    };
    if depth > 12 {
        return J::O(vec![("k", s("deep"))]);
    }
    match t.kind() {
        ty::Ref(r, inner, m) => J::O(vec![
            ("k", s("ref")),
            ("r", s(rname(*r))),
            ("mut", J::B(m.is_mut())),
            ("to", sigty(tcx, *inner, im, depth + 1)),
        ]),
        ty::RawPtr(inner, m) => J::O(vec![
            ("k", s("ptr")),
            ("mut", J::B(m.is_mut())),
            ("to", sigty(tcx, *inner, im, depth + 1)),
        ]),
        ty::Adt(def, args) => J::O(vec![
            ("k", s("adt")),
            ("path", s(path(tcx, def.did()))),
            ("args", J::A(args.iter().map(garg).collect())),
        ]),
        ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
        ty::Tuple(ts) => J::O(vec![
            ("k", s("tuple")),
            ("args", J::A(ts.iter().map(|x| sigty(tcx, x, im, depth + 1)).collect())),
        ]),
        ty::Slice(x) | ty::Array(x, _) => {
            J::O(vec![("k", s("seq")), ("to", sigty(tcx, *x, im, depth + 1))])
        }
        ty::Alias(_, a) => {
            match a.kind {
                ty::AliasTyKind::Projection { def_id } => {
                    if let Some(im) = im {
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            if a.args.get(0).and_then(|g| g.as_type()) == Some(tr.self_ty()) {
                                for it in tcx.associated_items(im).in_definition_order() {
                                    if it.trait_item_def_id() == Some(def_id) {
                                        let own = ty::GenericArgs::identity_for_item(tcx, im);
                                        let trg = tr.args.len();
                                        let mut full: Vec<ty::GenericArg<'tcx>> = own.iter().collect();
                                        full.extend(a.args.iter().skip(trg));
                                        let full = tcx.mk_args(&full);
                                        let u = tcx.type_of(it.def_id).instantiate(tcx, full).skip_norm_wip();
                                        return sigty(tcx, u, Some(im), depth + 1);
                                    }
                                }
                            }
                        }
                    }
                }
                ty::AliasTyKind::Opaque { def_id } => {
                    let u = tcx.type_of(def_id).instantiate(tcx, a.args).skip_norm_wip();
                    return J::O(vec![
                        ("k", s("opaque")),
                        ("args", J::A(a.args.iter().map(garg).collect())),
                        ("hidden", sigty(tcx, u, im, depth + 1)),
                    ]);
                }
                _ => {}
            }
            J::O(vec![
                ("k", s("alias")),
                ("name", s(with_no_trimmed_paths!(format!("{}", t)))),
                ("args", J::A(a.args.iter().map(garg).collect())),
            ])
        }
        _ => J::O(vec![("k", s("other")), ("name", s(with_no_trimmed_paths!(format!("{}", t))))]),
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, t: Ty<'tcx>, pe: ty::ParamEnv<'tcx>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
    infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
}

/// Send/Sync of a type (capacity 8) when nothing, Send, Sync, or both are known of its element type `A`
fn autos<'tcx>(tcx: TyCtxt<'tcx>, owner: DefId, mk: impl Fn(GenericArgsRef<'tcx>) -> Ty<'tcx>) -> Vec<(&'static str, J)> {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    use ty::Upcast;
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let (Some(send), Some(sync)) = (send, sync) else { return vec![] };
    let args = ty::GenericArgs::for_item(tcx, owner, |p, _| match p.kind {
        ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 8).into(),
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        _ => tcx.mk_param_from_def(p),
    });
    let t = mk(args);
    let mut base: Vec<ty::Clause<'tcx>> = vec![];
    let mut params = vec![];
    for g in args.iter() {
        if let Some(t) = g.as_type() {
            if let ty::Param(p) = t.kind() {
                params.push((t, p.name.to_string()));
            }
        }
    }
    let sized = tcx.lang_items().sized_trait();
    for (t, n) in &params {
        if let Some(sized) = sized {
            base.push(ty::TraitRef::new(tcx, sized, [*t]).upcast(tcx));
        }
        if n != "A" {
            base.push(ty::TraitRef::new(tcx, send, [*t]).upcast(tcx));
            base.push(ty::TraitRef::new(tcx, sync, [*t]).upcast(tcx));
        }
    }
    let mut out = vec![];
    for (nm, tr) in [("send", send), ("sync", sync)] {
        let mut v = vec![];
        for env in 0..4 {
            let mut cl = base.clone();
            for (t, n) in &params {
                if n == "A" {
                    if env & 1 != 0 {
                        cl.push(ty::TraitRef::new(tcx, send, [*t]).upcast(tcx));
                    }
                    if env & 2 != 0 {
                        cl.push(ty::TraitRef::new(tcx, sync, [*t]).upcast(tcx));
                    }
                }
            }
            let pe = ty::ParamEnv::new(tcx, cl);
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
            v.push(J::B(infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()));
        }
        out.push((nm, J::A(v)));
    }
    out
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("VP_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let outp = std::env::var("VP_OUT").unwrap();
        let mut roots = vec![];
        let mut bodies: BTreeMap<String, J> = BTreeMap::new();
        let mut adts: BTreeMap<String, J> = BTreeMap::new();
        let mut impls = vec![];
        let ev = tcx.effective_visibilities(());
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_str(k.to_def_id()));
        let mut seen: HashMap<String, ()> = HashMap::new();
        for ld in keys {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn);
            let is_const = matches!(dk, DefKind::AssocConst { .. } | DefKind::Const { .. });
            if !is_fn && !is_const {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let env = TypingEnv::post_analysis(tcx, d);
            let mut cl: Vec<String> = env
                .param_env
                .caller_bounds()
                .map(|c| with_no_trimmed_paths!(format!("{}", c)))
                .collect();
            cl.sort();
            let envname = cl.join(",");
            let mut cx = Cx {
                tcx,
                env,
                envname: envname.clone(),
                queue: VecDeque::new(),
                seen,
                out: BTreeMap::new(),
                types: BTreeMap::new(),
                newtypes: vec![],
                depth: 0,
                adts,
            };
            let inst = Instance::new_raw(d, args);
            let k = cx.enqueue(inst, None);
            let mut o = vec![
                ("key", s(k)),
                ("path", s(path(tcx, d))),
                ("kind", s(if is_fn { "fn" } else { "const" })),
                ("public", J::B(ev.is_reachable(ld))),
                ("at", cx.line(tcx.def_span(d))),
                ("bounds", s(envname)),
            ];
            o.push(("name", s(tcx.item_name(d).to_string())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sj = cx.ty(st);
                o.push(("self", sj));
                o.push(("selfname", s(with_no_trimmed_paths!(format!("{}", st)))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    o.push(("traitref", s(with_no_trimmed_paths!(format!("{}", tr)))));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            }
            if is_fn {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.push(("sig", s(with_no_trimmed_paths!(format!("{}", sig)))));
                {
                    let im = tcx.impl_of_assoc(d);
                    let free = tcx.liberate_late_bound_regions(d, sig);
                    let ins: Vec<J> = free.inputs().iter().map(|t| sigty(tcx, *t, im, 0)).collect();
                    o.push(("rinputs", J::A(ins)));
                    o.push(("routput", sigty(tcx, free.output(), im, 0)));
                    fn opaques<'tcx>(t: Ty<'tcx>, out: &mut Vec<DefId>) {
                        for g in t.walk() {
                            if let Some(t) = g.as_type() {
                                if let ty::Alias(_, a) = t.kind() {
                                    if let ty::AliasTyKind::Opaque { def_id } = a.kind {
                                        out.push(def_id);
                                    }
                                }
                            }
                        }
                    }
                    let mut ops = vec![];
                    opaques(free.output(), &mut ops);
                    let v: Vec<J> = ops
                        .into_iter()
                        .map(|q| {
                            J::O(autos(tcx, q, |args| tcx.type_of(q).instantiate(tcx, args).skip_norm_wip()))
                        })
                        .collect();
                    if !v.is_empty() {
                        o.push(("opaques", J::A(v)));
                    }
                }
                let sig = sig.skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                let ins: Vec<J> = sig.inputs().iter().map(|t| cx.ty(*t)).collect();
                o.push(("inputs", J::A(ins)));
                let out = cx.norm(sig.output());
                o.push(("output", cx.ty(out)));
                let out = cx.norm(tcx.liberate_late_bound_regions(d, tcx.fn_sig(d).instantiate_identity().skip_norm_wip()).output());
                // a foreign iterator that is returned: what its `next` does
                if let (ty::Adt(a, _), Some(nx)) = (out.kind(), tcx.lang_items().next_fn()) {
                    if !a.did().is_local() && !out.has_escaping_bound_vars() {
                        let ta = tcx.mk_args(&[out.into()]);
                        let tr = tcx.parent(nx);
                        if implements(tcx, tr, out, cx.env.param_env) {
                            let n = cx.resolve(nx, ta);
                            o.push(("next", J::O(n)));
                        }
                    }
                }
            }
            let gens: Vec<J> = args.iter().map(|g| cx.garg(g)).collect();
            o.push(("generics", J::A(gens)));
            roots.push(J::O(o));
            cx.run_queue();
            let Cx { out, seen: sn, adts: ad, .. } = cx;
            bodies.extend(out);
            seen = sn;
            adts = ad;
        }
        let mut shapes = vec![];
        for im in tcx.hir_crate_items(()).definitions() {
            let d = im.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let gens = tcx.generics_of(d);
                let vars = tcx.variances_of(d);
                let mut vs = vec![];
                for p in gens.own_params.iter() {
                    let k = match p.kind {
                        ty::GenericParamDefKind::Lifetime => "lifetime",
                        ty::GenericParamDefKind::Type { .. } => "type",
                        _ => "const",
                    };
                    let v = match vars[p.index as usize] {
                        ty::Variance::Covariant => "+",
                        ty::Variance::Contravariant => "-",
                        ty::Variance::Invariant => "o",
                        ty::Variance::Bivariant => "*",
                    };
                    vs.push(J::A(vec![s(p.name.to_string()), s(k), s(v)]));
                }
                let mut o = vec![
                    ("path", s(path(tcx, d))),
                    ("public", J::B(ev.is_reachable(im))),
                    ("variances", J::A(vs)),
                    (
                        "exposed",
                        J::A(
                            tcx.adt_def(d)
                                .all_fields()
                                .filter(|f| f.vis.is_public())
                                .map(|f| s(f.name.to_string()))
                                .collect(),
                        ),
                    ),
                ];
                let sp = tcx.def_span(d).source_callsite();
                let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
                o.push(("at", s(format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line))));
                o.extend(autos(tcx, d, |args| tcx.type_of(d).instantiate(tcx, args).skip_norm_wip()));
                shapes.push(J::O(o));
            }
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", s(with_no_trimmed_paths!(format!("{}", st))))];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(with_no_trimmed_paths!(format!("{}", tr)))));
                    o.push(("unsafe", J::B(h.safety.is_unsafe())));
                    o.push(("negative", J::B(matches!(h.polarity, ty::ImplPolarity::Negative))));
                }
                impls.push(J::O(o));
            }
        }
        let top = J::O(vec![
            ("debug_assertions", J::B(tcx.sess.opts.debug_assertions)),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())),
            ("roots", J::A(roots)),
            ("impls", J::A(impls)),
            ("shapes", J::A(shapes)),
            ("adts", J::A(adts.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect())),
            ("bodies", J::A(bodies.into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect())),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(outp, o).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(move || {
        let mut args: Vec<String> = std::env::args().collect();
        // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
        if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
            args.remove(1);
        }
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
