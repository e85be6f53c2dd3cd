//! rqfacts: a rustc driver that writes the type-checked, resolved MIR of a
//! workspace crate as JSON facts.  Injected with RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_ast;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON helper
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    let mut o = String::from("{");
    for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&esc(k));
        o.push(':');
        o.push_str(x);
    }
    o.push('}');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn did(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn dpath(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn span(&self, s: Span) -> (String, usize) {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")));
        let mut f: Vec<(&str, String)> = vec![("s", esc(&s))];
        match t.kind() {
            ty::Bool => f.push(("k", esc("bool"))),
            ty::Char => f.push(("k", esc("char"))),
            ty::Str => f.push(("k", esc("str"))),
            ty::Int(_) => f.push(("k", esc("int"))),
            ty::Uint(_) => f.push(("k", esc("uint"))),
            ty::Float(_) => f.push(("k", esc("float"))),
            ty::Never => f.push(("k", esc("never"))),
            ty::Adt(def, args) => {
                f.push(("k", esc("adt")));
                f.push(("did", esc(&self.did(def.did()))));
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
            }
            ty::Ref(_, x, m) => {
                f.push(("k", esc("ref")));
                f.push(("t", self.ty(*x).to_string()));
                f.push(("mut", (*m == ty::Mutability::Mut).to_string()));
            }
            ty::RawPtr(x, m) => {
                f.push(("k", esc("ptr")));
                f.push(("t", self.ty(*x).to_string()));
                f.push(("mut", (*m == ty::Mutability::Mut).to_string()));
            }
            ty::Slice(x) => {
                f.push(("k", esc("slice")));
                f.push(("t", self.ty(*x).to_string()));
            }
            ty::Array(x, n) => {
                f.push(("k", esc("array")));
                f.push(("t", self.ty(*x).to_string()));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    f.push(("n", n.to_string()));
                }
            }
            ty::Tuple(xs) => {
                f.push(("k", esc("tuple")));
                let a: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
            }
            ty::Closure(d, _) => {
                f.push(("k", esc("closure")));
                f.push(("did", esc(&self.did(*d))));
            }
            ty::FnDef(d, _) => {
                f.push(("k", esc("fndef")));
                f.push(("did", esc(&self.did(*d))));
            }
            ty::FnPtr(..) => f.push(("k", esc("fnptr"))),
            ty::Dynamic(..) => f.push(("k", esc("dyn"))),
            ty::Param(p) => {
                f.push(("k", esc("param")));
                f.push(("name", esc(p.name.as_str())));
            }
            ty::Alias(..) => f.push(("k", esc("alias"))),
            _ => f.push(("k", esc("other"))),
        }
        self.types[i] = obj(f);
        i
    }

    fn fnref(
        &mut self,
        env: TypingEnv<'tcx>,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
    ) -> String {
        let mut f: Vec<(&str, String)> =
            vec![("did", esc(&self.did(d))), ("path", esc(&self.dpath(d)))];
        let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        f.push(("targs", arr(ts)));
        f.push(("name", esc(self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            f.push(("trait", esc(&self.dpath(tr))));
        }
        if let Some(im) = self.tcx.impl_of_assoc(d) {
            let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
            f.push(("self_ty", self.ty(st).to_string()));
            if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("impl_trait", esc(&self.dpath(tr.def_id))));
            }
        }
        let args = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, args) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(..) => "intrinsic",
                _ => "shim",
            };
            f.push(("rkind", esc(kind)));
            if rd != d {
                f.push(("rdid", esc(&self.did(rd))));
                f.push(("rpath", esc(&self.dpath(rd))));
                let ts: Vec<String> =
                    inst.args.types().map(|x| self.ty(x).to_string()).collect();
                f.push(("rtargs", arr(ts)));
                if let Some(im) = self.tcx.impl_of_assoc(rd) {
                    let st = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    f.push(("rself_ty", self.ty(st).to_string()));
                    if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        f.push(("rimpl_trait", esc(&self.dpath(tr.def_id))));
                    }
                }
            }
        }
        obj(f)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr: Vec<String> = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(t);
                    format!("[\".\",{},{}]", i.as_usize(), t)
                }
                ProjectionElem::Index(l) => format!("[\"[]\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"[c]\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"[..]\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"as\",{},{}]",
                    v.as_usize(),
                    esc(n.map(|s| s.to_string()).unwrap_or_default().as_str())
                ),
                _ => "[\"?\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn cval(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 6 {
            return obj(vec![("opaque", esc("deep"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let sz = s.size();
                    let bits = s.to_bits(sz);
                    return match t.kind() {
                        ty::Bool => obj(vec![("bool", (bits != 0).to_string())]),
                        ty::Float(_) => obj(vec![
                            ("fbits", esc(&bits.to_string())),
                            ("size", sz.bytes().to_string()),
                        ]),
                        ty::Int(_) => {
                            let x = sz.sign_extend(bits);
                            obj(vec![("int", esc(&x.to_string()))])
                        }
                        ty::Char => obj(vec![("char", bits.to_string())]),
                        _ => obj(vec![("int", esc(&bits.to_string()))]),
                    };
                }
            }
            ty::FnDef(d, a) => {
                let r = self.fnref(env, *d, a.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *d)));
                return obj(vec![("fn", r)]);
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return obj(vec![("str", esc(&String::from_utf8_lossy(b)))]);
                }
            }
            ty::Tuple(x) if x.is_empty() => return obj(vec![("unit", "true".into())]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                use rustc_middle::ty::TypeVisitableExt;
                if !t.has_param() && !t.has_aliases() {
                    if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<String> = d
                            .fields
                            .iter()
                            .map(|(fv, ft)| self.cval(env, *fv, *ft, depth + 1))
                            .collect();
                        let tid = self.ty(t);
                        let mut o = vec![("agg", arr(fs)), ("ty", tid.to_string())];
                        if let Some(vi) = d.variant {
                            o.push(("variant", vi.as_usize().to_string()));
                        }
                        return obj(o);
                    }
                }
            }
            _ => {}
        }
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
            let id = p.provenance.alloc_id();
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                tcx.try_get_global_alloc(id)
            {
                return obj(vec![("static", esc(&self.did(d)))]);
            }
        }
        if matches!(v, ConstValue::ZeroSized) {
            let tid = self.ty(t);
            return obj(vec![("zst", tid.to_string())]);
        }
        obj(vec![("opaque", esc(&with_no_trimmed_paths!(format!("{:?}", v))))])
    }

    fn konst(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let mut o: Vec<(&str, String)> = vec![("ty", tid.to_string())];
        match c {
            mir::Const::Val(v, t) => o.push(("v", self.cval(env, *v, *t, 0))),
            mir::Const::Unevaluated(u, t) => {
                o.push(("item", esc(&self.did(u.def))));
                o.push(("ipath", esc(&self.dpath(u.def))));
                if let Some(p) = u.promoted {
                    o.push(("promoted", p.as_usize().to_string()));
                }
                use rustc_middle::ty::TypeVisitableExt;
                let ts: Vec<String> = u.args.types().map(|x| self.ty(x).to_string()).collect();
                o.push(("targs", arr(ts)));
                let scalarish = matches!(
                    t.kind(),
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Adt(..) | ty::Tuple(_)
                ) || matches!(t.kind(), ty::Ref(_, i, _) if i.is_str());
                if u.promoted.is_none() && scalarish && !u.args.has_param() && !t.has_param() {
                    if let Ok(v) = c.eval(self.tcx, env, DUMMY_SP) {
                        o.push(("v", self.cval(env, v, *t, 0)));
                    }
                }
            }
            mir::Const::Ty(_, k) => {
                let leaf = match k.kind() {
                    ty::ConstKind::Value(v) => v.try_to_leaf(),
                    _ => None,
                };
                if let Some(x) = leaf {
                    o.push(("v", self.cval(env, ConstValue::Scalar(mir::interpret::Scalar::Int(x)), t, 0)));
                } else if let Some(n) = k.try_to_target_usize(self.tcx) {
                    o.push(("v", obj(vec![("int", esc(&n.to_string()))])));
                } else {
                    o.push(("param", esc(&format!("{k}"))));
                }
            }
        }
        obj(o)
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(k) => format!("[\"k\",{}]", self.konst(env, &k.const_)),
            _ => "[\"k\",{\"v\":{\"bool\":false}}]".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Repeat(o, n) => {
                let n = n
                    .try_to_target_usize(self.tcx)
                    .map(|x| x.to_string())
                    .unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(env, o), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"reborrow\",{},{}]", *m == ty::Mutability::Mut, self.place(p))
            }
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(*t);
                let ks = format!("{:?}", k);
                let ks = ks.split('(').next().unwrap_or("").to_string();
                let full = format!("{:?}", k);
                let ks = if ks == "PointerCoercion" { full } else { ks };
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(env, o), tid)
            }
            Rvalue::BinaryOp(b, ops) => {
                let (l, r) = &**ops;
                format!(
                    "[\"bin\",{},{},{}]",
                    esc(&format!("{:?}", b)),
                    self.operand(env, l),
                    self.operand(env, r)
                )
            }
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.operand(env, o))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(env, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "{\"a\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"a\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let tid = self.ty(t);
                        obj(vec![
                            ("a", esc("adt")),
                            ("did", esc(&self.did(*d))),
                            ("variant", v.as_usize().to_string()),
                            ("vname", esc(def.variant(*v).name.as_str())),
                            ("ty", tid.to_string()),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        obj(vec![("a", esc("closure")), ("did", esc(&self.did(*d)))])
                    }
                    _ => "{\"a\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(ops))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>) -> Vec<(&'static str, String)> {
        let locals: Vec<String> = b
            .local_decls
            .iter()
            .map(|d| self.ty(d.ty).to_string())
            .collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                let line = self.span(s.source_info.span).1;
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(format!(
                            "[\"=\",{},{},{}]",
                            self.place(p),
                            self.rvalue(env, r),
                            line
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"sd\",{},{},{}]",
                            self.place(place),
                            variant_index.as_usize(),
                            line
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = self.span(t.source_info.span).1;
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let c: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| format!("[{},{}]", esc(&v.to_string()), t.as_usize()))
                        .collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let tid = self.ty(dt);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(env, discr),
                        arr(c),
                        targets.otherwise().as_usize(),
                        tid
                    )
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, &x.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        self.operand(env, func),
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(env, cond),
                        expected,
                        esc(m),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                k => format!("[\"other\",{}]", esc(&format!("{:?}", k))),
            };
            blocks.push(obj(vec![
                ("s", arr(st)),
                ("t", ts),
                ("l", line.to_string()),
                ("cleanup", bb.is_cleanup.to_string()),
            ]));
        }
        vec![
            ("argc", b.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
        ]
    }

    fn item(&mut self, l: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let d = l.to_def_id();
        let kind = tcx.def_kind(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let (k, b): (&str, &Body<'tcx>) = match kind {
            DefKind::Fn | DefKind::AssocFn => ("fn", tcx.optimized_mir(d)),
            DefKind::Closure => ("closure", tcx.optimized_mir(d)),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                ("const", tcx.mir_for_ctfe(d))
            }
            _ => return None,
        };
        let mut f: Vec<(&str, String)> = vec![
            ("did", esc(&self.did(d))),
            ("path", esc(&self.dpath(d))),
            ("kind", esc(k)),
            (
                "name",
                esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()),
            ),
        ];
        let (file, line) = self.span(tcx.def_span(d));
        f.push(("file", esc(&file)));
        f.push(("line", line.to_string()));
        f.push(("vis", esc(&format!("{:?}", tcx.visibility(d)))));
        if kind == DefKind::Closure {
            f.push(("parent", esc(&self.did(tcx.typeck_root_def_id(d)))));
            f.push(("direct_parent", esc(&self.did(tcx.parent(d)))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            f.push(("self_ty", self.ty(st).to_string()));
            f.push(("impl", esc(&self.did(im))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                f.push(("trait", esc(&self.dpath(tr.def_id))));
                let ts: Vec<String> = tr.args.types().skip(1).map(|x| self.ty(x).to_string()).collect();
                f.push(("trait_args", arr(ts)));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            f.push(("in_trait", esc(&self.dpath(tr))));
        }
        if kind != DefKind::Closure {
            let g = tcx.generics_of(d);
            let mut gs = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Type { .. } = p.kind {
                    gs.push(esc(p.name.as_str()));
                }
            }
            f.push(("generics", arr(gs)));
        }
        f.extend(self.body(env, b));
        let pm: Vec<String> = if kind != DefKind::Closure || true {
            tcx.promoted_mir(d).iter().map(|p| obj(self.body(env, p))).collect()
        } else {
            vec![]
        };
        f.push(("promoted", arr(pm)));
        Some(obj(f))
    }

    fn adts(&mut self) -> String {
        // every ADT mentioned in the type table, with variants and fields
        let mut out: Vec<String> = vec![];
        let mut done: std::collections::HashSet<DefId> = Default::default();
        loop {
            let todo: Vec<DefId> = self
                .tymap
                .keys()
                .filter_map(|t| if let ty::Adt(d, _) = t.kind() { Some(d.did()) } else { None })
                .filter(|d| !done.contains(d))
                .collect();
            if todo.is_empty() {
                break;
            }
            for d in todo {
                done.insert(d);
                let def = self.tcx.adt_def(d);
                let workspace = d.is_local();
                let mut vs = vec![];
                for (i, v) in def.variants().iter_enumerated() {
                    let dv = if def.is_enum() { def.discriminant_for_variant(self.tcx, i).val } else { 0 };
                    let mut fs = vec![];
                    for fd in &v.fields {
                        let ft = self.tcx.type_of(fd.did).instantiate_identity().skip_norm_wip();
                        let tid = if workspace { self.ty(ft).to_string() } else { "null".into() };
                        let vis = format!("{:?}", fd.vis);
                        fs.push(format!("[{},{},{}]", esc(fd.name.as_str()), tid, esc(&vis)));
                    }
                    vs.push(obj(vec![
                        ("name", esc(v.name.as_str())),
                        ("discr", esc(&dv.to_string())),
                        ("fields", arr(fs)),
                    ]));
                }
                let k = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
                out.push(obj(vec![
                    ("did", esc(&self.did(d))),
                    ("path", esc(&self.dpath(d))),
                    ("k", esc(k)),
                    ("local", workspace.to_string()),
                    ("variants", arr(vs)),
                ]));
            }
        }
        arr(out)
    }
}

struct Dump;
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("RQ_FACTS_DIR") else {
            return Compilation::Continue;
        };
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
        // make sure all local ADTs are in the table
        let items: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        let mut impls = vec![];
        for l in &items {
            match tcx.def_kind(*l) {
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(l.to_def_id()).instantiate_identity().skip_norm_wip();
                    cx.ty(t);
                }
                DefKind::Impl { .. } => {
                    let d = l.to_def_id();
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(st);
                    let ms: Vec<String> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|a| {
                            let tr = a.trait_item_def_id().map(|x| cx.did(x)).unwrap_or_default();
                            format!("[{},{},{}]", esc(a.name().as_str()), esc(&cx.did(a.def_id)), esc(&tr))
                        })
                        .collect();
                    let mut f = vec![
                        ("did", esc(&cx.did(d))),
                        ("self_ty", tid.to_string()),
                        ("items", arr(ms)),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        f.push(("trait", esc(&cx.dpath(tr.def_id))));
                        f.push(("trait_did", esc(&cx.did(tr.def_id))));
                        let ts: Vec<String> =
                            tr.args.types().skip(1).map(|x| cx.ty(x).to_string()).collect();
                        f.push(("trait_args", arr(ts)));
                    }
                    impls.push(obj(f));
                }
                _ => {}
            }
        }
        let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index);
        let mut fns = vec![];
        for k in keys {
            if let Some(s) = cx.item(k) {
                fns.push(s);
            }
        }
        let adts = cx.adts();
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let types = arr(std::mem::take(&mut cx.types));
        let out = obj(vec![
            ("crate", esc(&krate)),
            ("types", types),
            ("adts", adts),
            ("impls", arr(impls)),
            ("items", format!("[\n{}\n]", fns.join(",\n"))),
        ]);
        let kind = if tcx.sess.opts.test { "-test" } else { "" };
        let bin = if tcx.entry_fn(()).is_some() { "-bin" } else { "" };
        let tmp = format!("{dir}/.{krate}{kind}{bin}.{}", std::process::id());
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, format!("{dir}/{krate}{kind}{bin}.json")).expect("rename facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    let probing = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    if !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zalways-encode-mir=no".into());
        args.push("--cap-lints=allow".into());
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Dump)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
