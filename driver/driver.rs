// MIR/type extractor: runs as RUSTC_WORKSPACE_WRAPPER and writes the type-checked program
// (resolved MIR of every local function and of what it calls, plus signatures) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;
fn s<T: Into<String>>(x: T) -> J {
    S(x.into())
}
fn esc(x: &str, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            N => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            I(i) => {
                let _ = write!(o, "{}", i);
            }
            S(x) => esc(x, o),
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: BTreeMap<String, J>,
    done: HashMap<String, ()>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, DefId)>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn region<'tcx>(r: ty::Region<'tcx>) -> J {
    match r.kind() {
        ty::ReBound(..) => s("bound"),
        ty::ReEarlyParam(p) => s(format!("early:{}", p.name)),
        ty::ReLateParam(_) => s("late"),
        ty::ReStatic => s("static"),
        ty::ReErased => s("erased"),
        _ => s("other"),
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        I(self.tyid(t) as i128)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(N);
        let txt = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match *t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Str => "str",
            ty::Never => "never",
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                o.push(("path", s(p.clone())));
                o.push(("krate", s(tcx.crate_name(def.did().krate).to_string())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", A(a)));
                let r: Vec<J> = args.regions().map(|x| region(x)).collect();
                o.push(("regions", A(r)));
                self.adt(def, p);
                // field types per variant
                if def.is_struct() || def.is_enum() {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            fs.push(self.ty(ft));
                        }
                        vs.push(A(fs));
                    }
                    o.push(("vf", A(vs)));
                }
                "adt"
            }
            ty::Array(e, _) => {
                o.push(("e", self.ty(e)));
                "array"
            }
            ty::Slice(e) => {
                o.push(("e", self.ty(e)));
                "slice"
            }
            ty::Ref(r, e, m) => {
                o.push(("e", self.ty(e)));
                o.push(("m", B(m.is_mut())));
                o.push(("r", region(r)));
                "ref"
            }
            ty::RawPtr(e, m) => {
                o.push(("e", self.ty(e)));
                o.push(("m", B(m.is_mut())));
                "ptr"
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", A(a)));
                "tuple"
            }
            ty::Closure(d, args) => {
                o.push(("path", s(path(tcx, d))));
                let up = args.as_closure().upvar_tys();
                let a: Vec<J> = up.iter().map(|x| self.ty(x)).collect();
                o.push(("args", A(a)));
                "closure"
            }
            ty::FnDef(d, _) => {
                o.push(("path", s(path(tcx, d))));
                "fndef"
            }
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(..) => "dyn",
            ty::Param(p) => {
                o.push(("name", s(p.name.to_string())));
                o.push(("idx", I(p.index as i128)));
                "param"
            }
            ty::Alias(..) => {
                if let ty::Alias(_, al) = *t.kind() {
                    let a: Vec<J> = al.args.types().map(|x| self.ty(x)).collect();
                    o.push(("args", A(a)));
                }
                "alias"
            }
            _ => "other",
        };
        o.insert(0, ("k", s(k)));
        o.insert(1, ("s", s(txt)));
        self.ty_out[id] = O(o);
        id
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: String) {
        if self.adts.contains_key(&p) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let d = if def.is_enum() { I(def.discriminant_for_variant(tcx, vi).val as i128) } else { I(0) };
            let fs: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    O(vec![
                        ("n", s(f.name.to_string())),
                        ("pub", B(f.vis.is_public())),
                    ])
                })
                .collect();
            vs.push(O(vec![("n", s(v.name.to_string())), ("d", d), ("f", A(fs))]));
        }
        self.adts.insert(
            p,
            O(vec![
                ("enum", B(def.is_enum())),
                ("local", B(def.did().is_local())),
                ("krate", s(tcx.crate_name(def.did().krate).to_string())),
                ("variants", A(vs)),
            ]),
        );
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        s(format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn wanted(&self, did: DefId) -> bool {
        if did.is_local() {
            return true;
        }
        let krate = self.tcx.crate_name(did.krate).to_string();
        let dp = self.tcx.def_path(did).to_string_no_crate_verbose();
        if krate == "core" {
            let ok = ["::option", "::result", "::cmp", "::bool", "::mem", "::ops", "::convert", "::clone", "::array::equality",
                      "::num", "::default", "::tuple", "::ptr::const_ptr", "::ptr::mut_ptr", "::ptr::non_null", "::cell", "::borrow", "::range", "::hint"];
            return ok.iter().any(|p| dp.starts_with(p));
        }
        if krate == "alloc" {
            return false;
        }
        krate.starts_with("orx_pinned_vec")
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(path(tcx, did))));
        self.describe(did, &mut o);
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", A(a)));
        if tcx.trait_of_assoc(did).is_some() && args.types().next().is_some() {
            let st = args.type_at(0);
            o.push(("selfty", self.ty(st)));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let ok = matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..));
        if ok {
            if let DefKind::Ctor(..) = tcx.def_kind(did) {
                let adt_did = {
                    let mut p = tcx.parent(did);
                    if matches!(tcx.def_kind(p), DefKind::Variant) {
                        p = tcx.parent(p);
                    }
                    p
                };
                let vid = tcx.parent(did);
                let def = tcx.adt_def(adt_did);
                let idx = if def.is_enum() { def.variant_index_with_id(vid).as_usize() } else { 0 };
                o.push(("ctor", s(path(tcx, adt_did))));
                o.push(("variant", I(idx as i128)));
                let t = Ty::new_adt(tcx, def, args);
                o.push(("ctor_ty", self.ty(t)));
                return O(o);
            }
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, args) {
                match inst.def {
                    InstanceKind::Item(d) => {
                        let mut ro = vec![("path", s(path(tcx, d)))];
                        self.describe(d, &mut ro);
                        let key = self.enqueue(inst, env, root);
                        o.push(("inst", key.map(S).unwrap_or(N)));
                        o.push(("res", O(ro)));
                    }
                    other => {
                        o.push(("instkind", s(format!("{:?}", other).split('(').next().unwrap_or("").to_string())));
                        if let InstanceKind::Item(_) = other {}
                    }
                }
            }
        }
        O(o)
    }

    fn describe(&mut self, did: DefId, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        o.push(("krate", s(tcx.crate_name(did.krate).to_string())));
        o.push(("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("dp", s(tcx.def_path(did).to_string_no_crate_verbose())));
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(path(tcx, t))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            o.push(("unsafe", B(sig.safety().is_unsafe())));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            match st.kind() {
                ty::Adt(d, _) => o.push(("self", s(path(tcx, d.did())))),
                _ => o.push(("self", s(with_no_trimmed_paths!(st.to_string())))),
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("itrait", s(path(tcx, tr.def_id))));
                o.push(("itref", s(with_no_trimmed_paths!(tr.to_string()))));
            }
        }
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> Option<String> {
        let tcx = self.tcx;
        let did = inst.def_id();
        if !self.wanted(did) || !tcx.is_mir_available(did) {
            return None;
        }
        // parameters of different roots must not be mixed up in one key
        let mut key = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, inst.args));
        if tcx.is_closure_like(did) {
            key = format!("{}{}", tcx.def_path(did).to_string_no_crate_verbose(), with_no_trimmed_paths!(format!("{:?}", inst.args)));
        }
        if inst.args.has_param() {
            key = format!("{} @{}", key, tcx.def_path(root).to_string_no_crate_verbose());
        }
        if !self.done.contains_key(&key) {
            self.done.insert(key.clone(), ());
            self.queue.push_back((key.clone(), inst, env, root));
        }
        Some(key)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let nt = pt.projection_ty(self.tcx, e);
            v.push(match e {
                ProjectionElem::Deref => A(vec![s("*"), self.ty(nt.ty)]),
                ProjectionElem::Field(f, t) => A(vec![s("f"), I(f.as_usize() as i128), self.ty(t)]),
                ProjectionElem::Index(l) => A(vec![s("i"), I(l.as_usize() as i128), self.ty(nt.ty)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    A(vec![s("ci"), I(offset as i128), B(from_end), self.ty(nt.ty)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    A(vec![s("sub"), I(from as i128), I(to as i128), B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => A(vec![s("v"), I(vi.as_usize() as i128)]),
                _ => A(vec![s("o")]),
            });
            pt = nt;
        }
        A(vec![I(p.local.as_usize() as i128), A(v)])
    }

    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = vec![("ty", self.ty(t))];
        if let ty::FnDef(d, args) = *t.kind() {
            if let Some(a) = args.no_bound_vars() {
                o.push(("fn", self.callee(d, a, env, root)));
            }
            return O(o);
        }
        if t.is_bool() || t.is_integral() || t.is_char() {
            if let Some(si) = c.try_eval_scalar_int(tcx, env) {
                let size = si.size();
                let v: i128 = if t.is_signed() { si.to_int(size) } else { si.to_uint(size) as i128 };
                o.push(("v", I(v)));
            }
        } else if let ty::Adt(def, _) = t.kind() {
            if def.is_enum() {
                // fieldless enum constants
                if let Some(si) = c.try_eval_scalar_int(tcx, env) {
                    let bits = si.to_uint(si.size());
                    for (vi, d) in def.discriminants(tcx) {
                        let mask = if si.size().bits() >= 128 { u128::MAX } else { (1u128 << si.size().bits()) - 1 };
                        if d.val & mask == bits && def.variant(vi).fields.is_empty() {
                            o.push(("variant", I(vi.as_usize() as i128)));
                        }
                    }
                }
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) && !o.iter().any(|x| x.0 == "variant") {
            if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        fs.push(self.konst(&Const::Val(*fv, *ft), env, root));
                    }
                    o.push(("agg", A(vec![I(d.variant.map(|x| x.as_usize()).unwrap_or(0) as i128), A(fs)])));
                }
            }
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("cpath", s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", I(p.as_usize() as i128)));
                if let Some(pb) = tcx.promoted_mir(u.def).get(p) {
                    let pb = EarlyBinder::bind(tcx, pb.clone()).instantiate(tcx, u.args).skip_norm_wip();
                    let pb = tcx.erase_and_anonymize_regions(pb);
                    if let Ok(pb) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(pb)) {
                        if pb.basic_blocks.len() < 8 {
                            o.push(("pbody", O(self.mir(&pb, u.def, env, root))));
                        }
                    }
                }
            }
        }
        if let Const::Val(ConstValue::Slice { .. }, _) = c {
            o.push(("str", s(with_no_trimmed_paths!(c.to_string()))));
        }
        O(o)
    }

    fn operand(&mut self, b: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        match op {
            Operand::Copy(p) => A(vec![s("c"), self.place(b, p)]),
            Operand::Move(p) => A(vec![s("m"), self.place(b, p)]),
            Operand::Constant(c) => A(vec![s("k"), self.konst(&c.const_, env, root)]),
            Operand::RuntimeChecks(_) => A(vec![s("rc")]),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => A(vec![s("use"), self.operand(b, o, env, root)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| I(x as i128)).unwrap_or(N);
                A(vec![s("repeat"), self.operand(b, o, env, root), n])
            }
            Rvalue::Ref(_, k, p) => A(vec![s("ref"), B(matches!(k, BorrowKind::Mut { .. })), self.place(b, p)]),
            Rvalue::RawPtr(k, p) => A(vec![s("raw"), B(matches!(k, RawPtrKind::Mut)), self.place(b, p)]),
            Rvalue::Reborrow(_, m, p) => A(vec![s("ref"), B(m.is_mut()), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                A(vec![s("cast"), s(k), self.operand(b, o, env, root), self.ty(*t)])
            }
            Rvalue::BinaryOp(op, ab) => A(vec![
                s("bin"),
                s(format!("{:?}", op)),
                self.operand(b, &ab.0, env, root),
                self.operand(b, &ab.1, env, root),
            ]),
            Rvalue::UnaryOp(op, o) => A(vec![s("un"), s(format!("{:?}", op)), self.operand(b, o, env, root)]),
            Rvalue::Discriminant(p) => A(vec![s("disc"), self.place(b, p)]),
            Rvalue::CopyForDeref(p) => A(vec![s("use"), A(vec![s("c"), self.place(b, p)])]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(b, o, env, root)).collect();
                let t = {
                    let t = r.ty(&b.local_decls, tcx);
                    self.ty(t)
                };
                let kind = match **k {
                    AggregateKind::Array(_) => A(vec![s("array")]),
                    AggregateKind::Tuple => A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, _) => A(vec![s("adt"), s(path(tcx, d)), I(vi.as_usize() as i128)]),
                    AggregateKind::Closure(d, args) => {
                        let args = tcx.erase_and_anonymize_regions(args);
                        let inst = Instance::new_raw(d, args);
                        let key = self.enqueue(inst, env, root);
                        A(vec![s("closure"), s(path(tcx, d)), key.map(S).unwrap_or(N)])
                    }
                    AggregateKind::RawPtr(..) => A(vec![s("rawptr")]),
                    _ => A(vec![s("other")]),
                };
                A(vec![s("agg"), kind, A(ops), t])
            }
            _ => A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> Option<Vec<(&'static str, J)>> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let raw = tcx.instance_mir(inst.def);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => return None,
        };
        Some(self.mir(&body, did, env, root))
    }

    fn mir(&mut self, b: &Body<'tcx>, did: DefId, env: TypingEnv<'tcx>, root: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(path(tcx, did))));
        o.push(("local", B(did.is_local())));
        o.push(("span", self.span(b.span)));
        o.push(("closure", B(tcx.is_closure_like(did))));
        self.describe(did, &mut o);
        o.push(("argc", I(b.arg_count as i128)));
        o.push(("spread", b.spread_arg.map(|l| I(l.as_usize() as i128)).unwrap_or(N)));
        let l: Vec<J> = b.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", A(l)));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(A(vec![I(p.local.as_usize() as i128), s(v.name.to_string())]));
                }
            }
        }
        o.push(("names", A(names)));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bb.statements {
                let ln = self.span(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(b, &x.0);
                        let r = self.rvalue(b, &x.1, env, root);
                        ss.push(A(vec![s("="), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        ss.push(A(vec![s("sd"), p, I(variant_index.as_usize() as i128), ln]));
                    }
                    StatementKind::StorageDead(l) => ss.push(A(vec![s("dead"), I(l.as_usize() as i128)])),
                    StatementKind::Intrinsic(i) => ss.push(A(vec![s("intr"), s(format!("{:?}", i)), N, ln])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let ln = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => A(vec![s("goto"), I(target.as_usize() as i128)]),
                TerminatorKind::FalseEdge { real_target, .. } => A(vec![s("goto"), I(real_target.as_usize() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => A(vec![s("goto"), I(real_target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(b, discr, env, root);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let tg: Vec<J> =
                        targets.iter().map(|(v, t)| A(vec![I(v as i128), I(t.as_usize() as i128)])).collect();
                    A(vec![s("switch"), d, A(tg), I(targets.otherwise().as_usize() as i128), dt, ln])
                }
                TerminatorKind::Return => A(vec![s("ret")]),
                TerminatorKind::Unreachable => A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    A(vec![s("drop"), self.place(b, place), I(target.as_usize() as i128), pt, ln])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func.const_fn_def() {
                        Some((d, a)) => A(vec![s("def"), self.callee(d, a, env, root)]),
                        None => A(vec![s("op"), self.operand(b, func, env, root)]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, &x.node, env, root)).collect();
                    let d = self.place(b, destination);
                    let ln = self.span(*fn_span);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    A(vec![s("call"), f, A(a), d, target.map(|t| I(t.as_usize() as i128)).unwrap_or(N), ln, dt])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => A(vec![
                    s("assert"),
                    self.operand(b, cond, env, root),
                    B(*expected),
                    s(format!("{:?}", msg).chars().take(80).collect::<String>()),
                    I(target.as_usize() as i128),
                    ln,
                ]),
                _ => A(vec![s("end")]),
            };
            blocks.push(O(vec![("s", A(ss)), ("t", t), ("cleanup", B(bb.is_cleanup))]));
        }
        o.push(("blocks", A(blocks)));
        o
    }

    // item types reachable from a public signature by iterating (opaque types are revealed)
    fn iter_items(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Vec<J> {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut todo = vec![t];
        let mut n = 0;
        let it = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        let dr = tcx.lang_items().deref_trait();
        while let Some(t) = todo.pop() {
            n += 1;
            if n > 60 {
                break;
            }
            let mut comps = vec![];
            for c in t.walk() {
                if let Some(t) = c.as_type() {
                    comps.push(t);
                }
            }
            for c in comps {
                if c.has_escaping_bound_vars() || c.is_ref() {
                    continue;
                }
                if !matches!(c.kind(), ty::Alias(..) | ty::Adt(..)) {
                    continue;
                }
                for (tr, nm) in [(it, "Item"), (dr, "Target")] {
                    let Some(tr) = tr else { continue };
                    let c2 = tcx.erase_and_anonymize_regions(c);
                    let Some(assoc) = tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == nm) else { continue };
                    let proj = Ty::new_projection(tcx, ty::IsRigid::No, assoc.def_id, [ty::GenericArg::from(c2)]);
                    if let Ok(x) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)) {
                        if x != proj {
                            out.push(A(vec![s(nm), self.ty(c), self.ty(x)]));
                            todo.push(x);
                        }
                    }
                }
            }
        }
        out
    }

    /// borrowed parts of an output whose lifetime does not come from an input
    fn untied(&mut self, ins: &[Ty<'tcx>], out: Ty<'tcx>) -> Vec<J> {
        let mut known = vec![];
        for t in ins {
            for c in t.walk() {
                if let Some(r) = c.as_region() {
                    known.push(r);
                }
            }
        }
        let mut v = vec![];
        for c in out.walk() {
            let Some(t) = c.as_type() else { continue };
            match t.kind() {
                ty::Ref(r, _, _) => {
                    if !known.contains(r) && !matches!(r.kind(), ty::ReBound(..)) {
                        v.push(self.ty(t));
                    }
                }
                ty::Adt(d, args) if d.did().is_local() => {
                    if args.regions().any(|r| !known.contains(&r) && !matches!(r.kind(), ty::ReBound(..))) {
                        v.push(self.ty(t));
                    }
                }
                _ => {}
            }
        }
        v
    }

    fn roots(&mut self) -> (Vec<J>, Vec<J>) {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut out = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let key = self.enqueue(inst, env, did);
            let mut o = vec![("path", s(path(tcx, did))), ("key", key.map(S).unwrap_or(N))];
            self.describe(did, &mut o);
            let sp = self.span(tcx.def_span(did));
            o.push(("span", sp));
            let mut vis = ev.is_exported(ld) || ev.is_reachable(ld);
            let itrait = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i));
            if itrait.is_none() {
                vis = vis && tcx.visibility(did).is_public();
            }
            o.push(("exported", B(vis)));
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sigs = tcx.liberate_late_bound_regions(did, sig);
            let ins: Vec<J> = sigs.inputs().iter().map(|t| self.ty(*t)).collect();
            o.push(("ins", A(ins)));
            o.push(("out", self.ty(sigs.output())));
            let items = self.iter_items(sigs.output(), env);
            o.push(("items", A(items)));
            let free = self.untied(sigs.inputs(), sigs.output());
            o.push(("untied", A(free)));
            // closure bounds
            let preds = tcx.clauses_of(did).instantiate_identity(tcx);
            let mut ps = vec![];
            for (p, _) in preds.into_iter() {
                let p = p.skip_norm_wip();
                let bound = p.kind().bound_vars().len();
                match p.kind().skip_binder() {
                    ty::ClauseKind::Trait(tp) => {
                        let a: Vec<J> = tp.trait_ref.args.types().map(|t| self.ty(t)).collect();
                        ps.push(O(vec![
                            ("trait", s(path(tcx, tp.trait_ref.def_id))),
                            ("args", A(a)),
                            ("bound", I(bound as i128)),
                            ("esc", {
                                let mut v = vec![];
                                for t in tp.trait_ref.args.types().skip(1) {
                                    for c in t.walk() {
                                        if let Some(ct) = c.as_type() {
                                            if let ty::Ref(r, e, _) = ct.kind() {
                                                if !matches!(r.kind(), ty::ReBound(..)) {
                                                    v.push(self.ty(*e));
                                                }
                                            }
                                        }
                                    }
                                }
                                A(v)
                            }),
                        ]));
                    }
                    ty::ClauseKind::Projection(pp) => {
                        if let Some(t) = pp.term.as_type() {
                            let a: Vec<J> = pp.projection_term.args.types().map(|t| self.ty(t)).collect();
                            ps.push(O(vec![
                                ("proj", s(path(tcx, pp.def_id()))),
                                ("args", A(a)),
                                ("term", self.ty(t)),
                                ("bound", I(bound as i128)),
                            ]));
                        }
                    }
                    _ => {}
                }
            }
            o.push(("preds", A(ps)));
            out.push(O(o));
        }
        // impls: traits implemented by local types, with associated types
        let mut imps = vec![];
        for (tr, list) in tcx.all_local_trait_impls(()) {
            for ld in list {
                let did = ld.to_def_id();
                let env = TypingEnv::post_analysis(tcx, did);
                let tref = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let mut o = vec![("trait", s(path(tcx, *tr)))];
                o.push(("tref", s(with_no_trimmed_paths!(tref.to_string()))));
                o.push(("self", self.ty(tref.self_ty())));
                let pol = tcx.impl_polarity(did);
                o.push(("polarity", s(format!("{:?}", pol))));
                let sp = self.span(tcx.def_span(did));
                o.push(("span", sp));
                let mut at = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let items = self.iter_items(t, env);
                        at.push(O(vec![("n", s(it.name().to_string())), ("ty", self.ty(t)), ("items", A(items))]));
                    }
                }
                o.push(("assoc", A(at)));
                // what a manual marker implementation demands of its parameters
                let nm = path(tcx, *tr);
                if nm.ends_with("marker::Send") || nm.ends_with("marker::Sync") {
                    let bounds: Vec<_> = tcx.param_env(did).caller_bounds().collect();
                    let mut ps = vec![];
                    let g = tcx.generics_of(did);
                    for gp in &g.own_params {
                        if !matches!(gp.kind, ty::GenericParamDefKind::Type { .. }) {
                            continue;
                        }
                        let (mut send, mut sync, mut pinned) = (false, false, false);
                        for b in &bounds {
                            if let ty::ClauseKind::Trait(tp) = b.kind().skip_binder() {
                                if let ty::Param(x) = tp.trait_ref.self_ty().kind() {
                                    if x.index == gp.index {
                                        let n = path(tcx, tp.trait_ref.def_id);
                                        send |= n.ends_with("marker::Send");
                                        sync |= n.ends_with("marker::Sync");
                                        pinned |= n.contains("PinnedVec");
                                    }
                                }
                            }
                        }
                        ps.push(O(vec![
                            ("n", s(gp.name.to_string())),
                            ("send", B(send)),
                            ("sync", B(sync)),
                            ("pinned", B(pinned)),
                        ]));
                    }
                    o.push(("params", A(ps)));
                }
                imps.push(O(o));
            }
        }
        (out, imps)
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: BTreeMap::new(),
            done: HashMap::new(),
            queue: VecDeque::new(),
        };
        let (roots, imps) = cx.roots();
        // public structs and fields
        let mut structs = vec![];
        let ev = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let fs: Vec<J> = tcx
                    .adt_def(did)
                    .all_fields()
                    .map(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        O(vec![("n", s(f.name.to_string())), ("pub", B(f.vis.is_public())), ("ty", cx.ty(ft))])
                    })
                    .collect();
                structs.push(O(vec![
                    ("path", s(path(tcx, did))),
                    ("exported", B(ev.is_exported(id))),
                    ("ty", cx.ty(t)),
                    ("fields", A(fs)),
                ]));
            }
        }
        let mut fns: Vec<(String, J)> = vec![];
        while let Some((key, inst, env, root)) = cx.queue.pop_front() {
            if fns.len() > 20000 {
                break;
            }
            let r = cx.body(inst, env, root);
            fns.push((key, r.map(O).unwrap_or(N)));
        }
        let mut o = String::new();
        o.push_str("{\"crate\":");
        esc(&tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string(), &mut o);
        o.push_str(",\"roots\":");
        A(roots).w(&mut o);
        o.push_str(",\"impls\":");
        A(imps).w(&mut o);
        o.push_str(",\"structs\":");
        A(structs).w(&mut o);
        o.push_str(",\"fns\":{");
        for (i, (k, v)) in fns.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push('\n');
            esc(k, &mut o);
            o.push(':');
            v.w(&mut o);
        }
        o.push_str("},\n\"types\":");
        A(cx.ty_out.clone()).w(&mut o);
        o.push_str(",\"adts\":{");
        for (i, (k, v)) in cx.adts.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            esc(k, &mut o);
            o.push(':');
            v.w(&mut o);
        }
        o.push_str("}}\n");
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: driver <rustc> args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let krate = std::env::var("VERIF_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate) && !args.iter().any(|a| a == "--test");
    if is {
        let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
        args.push("-Zmir-opt-level=0".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
