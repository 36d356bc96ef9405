// A rustc driver that dumps the typed program (THIR bodies, types, resolved callees, impls,
// statics, items) of the crate being compiled as JSON.  It never runs the program.
//
// Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
// SJP_DUMP_DIR: directory receiving <crate_name>.json
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::thir::{self, ExprId, ExprKind, PatKind, StmtKind, Thir};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypeVisitableExt};
use std::collections::HashMap;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_table: Vec<J>,
    adts: HashMap<DefId, usize>,
    adt_table: Vec<J>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, did: DefId) -> String {
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(did.krate),
            tcx.def_path(did).to_string_no_crate_verbose()
        )
    }
    /// `crate::module::Item` for items in modules (no impl indices inside).
    fn path(&self, did: DefId) -> String {
        self.id(did)
    }
    fn head(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.head(*t)),
            ty::Slice(_) => "[]".into(),
            ty::Array(..) => "[;]".into(),
            ty::Tuple(_) => "()".into(),
            ty::Param(p) => format!("?{}", p.name),
            ty::Dynamic(preds, ..) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            ty::Closure(d, _) => format!("closure {}", self.id(*d)),
            _ => format!("{t}"),
        }
    }
    fn generic_args(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(n(self.ty(t))),
                ty::GenericArgKind::Const(c) => v.push(s(format!("{c}"))),
                ty::GenericArgKind::Lifetime(_) => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let j = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                J::A(vec![s("prim"), s(format!("{t}"))])
            }
            ty::Adt(a, args) => {
                if !self.adts.contains_key(&a.did()) {
                    let k = self.adts.len();
                    self.adts.insert(a.did(), k);
                    self.adt_queue.push(a.did());
                }
                let p = self.path(a.did());
                let args = self.generic_args(args.as_slice());
                J::A(vec![s("adt"), s(p), args])
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                J::A(vec![s("ref"), J::B(m.is_mut()), n(x)])
            }
            ty::RawPtr(x, _) => {
                let x = self.ty(*x);
                J::A(vec![s("ptr"), n(x)])
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                J::A(vec![s("slice"), n(x)])
            }
            ty::Array(x, c) => {
                let x = self.ty(*x);
                J::A(vec![s("array"), n(x), s(format!("{c}"))])
            }
            ty::Tuple(xs) => {
                let v = xs.iter().map(|x| n(self.ty(x))).collect();
                J::A(vec![s("tuple"), J::A(v)])
            }
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let c = self.callee((*d).into(), args, None);
                J::A(vec![s("fndef"), c])
            }
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(format!("{t}"))]),
            ty::Closure(d, _) => J::A(vec![s("closure"), s(self.id(*d))]),
            ty::Dynamic(preds, ..) => {
                let p = match preds.principal_def_id() {
                    Some(d) => self.path(d),
                    None => "".into(),
                };
                J::A(vec![s("dyn"), s(p), s(format!("{t}"))])
            }
            ty::Never => J::A(vec![s("never")]),
            ty::Alias(..) => J::A(vec![s("alias"), s(format!("{t}"))]),
            _ => J::A(vec![s("other"), s(format!("{t}"))]),
        };
        let i = self.ty_table.len();
        self.ty_table.push(j);
        self.tys.insert(t, i);
        i
    }
    /// A structured description of a callee (function item or method).
    fn callee(
        &mut self,
        did: DefId,
        args: GenericArgsRef<'tcx>,
        owner: Option<LocalDefId>,
    ) -> J {
        let tcx = self.tcx;
        let mut o = vec![("id", s(self.id(did))), ("args", self.generic_args(args.as_slice()))];
        o.push(("local", J::B(did.is_local())));
        if let Some(name) = tcx.opt_item_name(did) {
            o.push(("name", s(name.to_string())));
        }
        if let Some(assoc) = tcx.opt_associated_item(did) {
            let parent = tcx.parent(did);
            if tcx.is_trait(parent) {
                o.push(("kind", s("trait")));
                o.push(("trait", s(self.path(parent))));
                let _ = assoc;
                if args.types().next().is_some() {
                    let st = args.type_at(0);
                    o.push(("self", n(self.ty(st))));
                }
            } else if tcx.def_kind(parent) == (DefKind::Impl { of_trait: true }) {
                o.push(("kind", s("traitimpl")));
                let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(self.path(tr.def_id))));
                let h = self.head(tr.self_ty());
                o.push(("self_head", s(h)));
            } else {
                o.push(("kind", s("inherent")));
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                let h = self.head(st);
                o.push(("self_head", s(h)));
            }
        } else {
            o.push(("kind", s("free")));
            if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                o.push(("ctor", self.ctor(did)));
            }
        }
        if let Some(owner) = owner {
            if tcx.trait_of_assoc(did).is_some() && !args.has_infer() {
                let env = ty::TypingEnv::post_analysis(tcx, owner);
                let args2 = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, args2) {
                    let rd = inst.def_id();
                    if rd != did {
                        let c = self.callee(rd, inst.args, None);
                        o.push(("res", c));
                    }
                }
            }
        }
        J::O(o)
    }
    fn ctor(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let parent = tcx.parent(did);
        // struct ctor: parent is the struct; variant ctor: parent is the variant
        let (adt_did, vname) = if tcx.def_kind(parent) == DefKind::Variant {
            (tcx.parent(parent), tcx.item_name(parent).to_string())
        } else {
            (parent, tcx.item_name(parent).to_string())
        };
        if !self.adts.contains_key(&adt_did) {
            let k = self.adts.len();
            self.adts.insert(adt_did, k);
            self.adt_queue.push(adt_did);
        }
        J::A(vec![s(self.path(adt_did)), s(vname)])
    }
    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let tcx = self.tcx;
            let a = tcx.adt_def(d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let mut vs = vec![];
            for v in a.variants().iter() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    // Only expand field types of local adts (foreign ones may be huge/private)
                    let t = if d.is_local() {
                        n(self.ty(f.ty(tcx, args).skip_norm_wip()))
                    } else {
                        J::Null
                    };
                    fs.push(J::O(vec![
                        ("name", s(f.name.to_string())),
                        ("ty", t),
                        ("pub", J::B(f.vis.is_public())),
                    ]));
                }
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("fields", J::A(fs))]));
            }
            let kind = if a.is_struct() {
                "struct"
            } else if a.is_enum() {
                "enum"
            } else {
                "union"
            };
            let gens: Vec<J> = tcx
                .generics_of(d)
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| s(p.name.to_string()))
                .collect();
            let mut repr_drop = false;
            if a.destructor(tcx).is_some() {
                repr_drop = true;
            }
            self.adt_table.push(J::O(vec![
                ("path", s(self.path(d))),
                ("kind", s(kind)),
                ("local", J::B(d.is_local())),
                ("generics", J::A(gens)),
                ("has_drop", J::B(repr_drop)),
                ("variants", J::A(vs)),
            ]));
        }
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo
            .file
            .name
            .prefer_local_unconditionally()
            .to_string();
        s(format!("{}:{}", f, lo.line))
    }

    // ------------------------------------------------------------ bodies
    fn body(&mut self, did: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let (thir, root) = tcx.thir_body(did).ok()?;
        let thir = thir.borrow().clone();
        let mut b = Body { cx: self, thir: &thir, owner: did };
        let params: Vec<J> = thir
            .params
            .iter()
            .map(|p| {
                let t = b.cx.ty(p.ty);
                J::O(vec![
                    ("ty", n(t)),
                    ("pat", p.pat.as_ref().map(|p| b.pat(p)).unwrap_or(J::Null)),
                    ("self", J::B(p.self_kind.is_some())),
                ])
            })
            .collect();
        let e = b.expr(root);
        Some(J::O(vec![("params", J::A(params)), ("expr", e)]))
    }
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    owner: LocalDefId,
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: thir::LocalVarId) -> J {
        s(format!(
            "{}.{}",
            self.cx.id(v.0.owner.to_def_id()),
            v.0.local_id.as_u32()
        ))
    }
    fn lit(&mut self, l: &rustc_ast::LitKind, neg: bool) -> J {
        use rustc_ast::LitKind::*;
        match l {
            Str(sym, _) => J::A(vec![s("str"), s(sym.to_string())]),
            ByteStr(b, _) => J::A(vec![
                s("bytes"),
                J::A(b.as_byte_str().iter().map(|x| n(*x as usize)).collect()),
            ]),
            CStr(..) => J::A(vec![s("cstr")]),
            Byte(b) => J::A(vec![s("int"), J::I(*b as i128)]),
            Char(c) => J::A(vec![s("char"), J::I(*c as u32 as i128)]),
            Int(i, _) => {
                let v = i.get();
                J::A(vec![s("int"), s(format!("{}{}", if neg { "-" } else { "" }, v))])
            }
            Float(sym, _) => J::A(vec![
                s("float"),
                s(format!("{}{}", if neg { "-" } else { "" }, sym)),
            ]),
            Bool(b) => J::A(vec![s("bool"), J::B(*b)]),
            Err(_) => J::A(vec![s("err")]),
        }
    }
    fn exprs(&mut self, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(*e)).collect())
    }
    fn oexpr(&mut self, v: Option<ExprId>) -> J {
        v.map(|e| self.expr(e)).unwrap_or(J::Null)
    }
    fn block(&mut self, b: thir::BlockId) -> J {
        let blk = &self.thir[b];
        let mut st = vec![];
        for sid in blk.stmts.iter() {
            match &self.thir[*sid].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.expr(*expr);
                    st.push(J::O(vec![("k", s("expr")), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let p = self.pat(pattern);
                    let i = self.oexpr(*initializer);
                    let e = else_block.map(|b| self.block(b)).unwrap_or(J::Null);
                    st.push(J::O(vec![("k", s("let")), ("pat", p), ("init", i), ("else", e)]));
                }
            }
        }
        let e = self.oexpr(blk.expr);
        J::O(vec![
            ("stmts", J::A(st)),
            ("expr", e),
            ("scope", s(format!("{:?}", blk.region_scope.local_id))),
            ("brk", J::B(blk.targeted_by_break)),
            ("unsafe", J::B(!matches!(blk.safety_mode, thir::BlockSafety::Safe))),
        ])
    }
    fn expr(&mut self, id: ExprId) -> J {
        let e = &self.thir[id];
        // See through scopes, but remember the labels for loops/blocks
        if let ExprKind::Scope { value, region_scope, .. } = &e.kind {
            let inner = &self.thir[*value];
            match &inner.kind {
                ExprKind::Loop { body } => {
                    let t = self.cx.ty(inner.ty);
                    let b = self.expr(*body);
                    return J::O(vec![
                        ("k", s("loop")),
                        ("ty", n(t)),
                        ("label", s(format!("{:?}", region_scope.local_id))),
                        ("body", b),
                        ("sp", self.cx.span(inner.span)),
                    ]);
                }
                _ => return self.expr(*value),
            }
        }
        let t = self.cx.ty(e.ty);
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &e.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                o.push(("cond", self.expr(*cond)));
                o.push(("then", self.expr(*then)));
                o.push(("else", self.oexpr(*else_opt)));
                "if"
            }
            ExprKind::Call { fun, args, ty: fty, .. } => {
                match fty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.skip_binder();
                        let c = self.cx.callee((*d).into(), ga, Some(self.owner));
                        o.push(("f", c));
                    }
                    _ => {
                        o.push(("fun", self.expr(*fun)));
                    }
                }
                o.push(("args", self.exprs(args)));
                o.push(("sp", self.cx.span(e.span)));
                "call"
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                o.push(("e", self.expr(*arg)));
                "deref"
            }
            ExprKind::Binary { op, lhs, rhs } => {
                o.push(("op", s(format!("{op:?}"))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                o.push(("sp", self.cx.span(e.span)));
                "bin"
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{op:?}"))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "logic"
            }
            ExprKind::Unary { op, arg } => {
                o.push(("op", s(format!("{op:?}"))));
                o.push(("e", self.expr(*arg)));
                o.push(("sp", self.cx.span(e.span)));
                "un"
            }
            ExprKind::Cast { source } => {
                o.push(("e", self.expr(*source)));
                let st = self.thir[*source].ty;
                o.push(("from", n(self.cx.ty(st))));
                "cast"
            }
            ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => return self.expr(*source),
            ExprKind::PointerCoercion { cast, source, .. } => {
                o.push(("e", self.expr(*source)));
                o.push(("c", s(format!("{cast:?}"))));
                "coerce"
            }
            ExprKind::Loop { body } => {
                o.push(("body", self.expr(*body)));
                o.push(("label", J::Null));
                "loop"
            }
            ExprKind::LoopMatch { .. } => "loopmatch",
            ExprKind::Let { expr, pat } => {
                o.push(("e", self.expr(*expr)));
                o.push(("pat", self.pat(pat)));
                "let"
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                o.push(("e", self.expr(*scrutinee)));
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &self.thir[*a];
                    let p = self.pat(&arm.pattern);
                    let g = self.oexpr(arm.guard);
                    let b = self.expr(arm.body);
                    v.push(J::O(vec![("pat", p), ("guard", g), ("body", b)]));
                }
                o.push(("arms", J::A(v)));
                o.push(("src", s(format!("{match_source:?}"))));
                "match"
            }
            ExprKind::Block { block } => {
                o.push(("b", self.block(*block)));
                "block"
            }
            ExprKind::Assign { lhs, rhs } => {
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                "assign"
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{op:?}"))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
                o.push(("sp", self.cx.span(e.span)));
                "assignop"
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.thir[*lhs].ty;
                let mut fname = format!("{}", name.as_u32());
                let mut adt = J::Null;
                if let ty::Adt(a, _) = lt.kind() {
                    fname = a.variant(*variant_index).fields[*name].name.to_string();
                    adt = s(self.cx.path(a.did()));
                }
                o.push(("e", self.expr(*lhs)));
                o.push(("f", s(fname)));
                o.push(("adt", adt));
                "field"
            }
            ExprKind::Index { lhs, index } => {
                o.push(("l", self.expr(*lhs)));
                o.push(("i", self.expr(*index)));
                o.push(("sp", self.cx.span(e.span)));
                "index"
            }
            ExprKind::VarRef { id } => {
                o.push(("v", self.var(*id)));
                "var"
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o.push(("v", self.var(*var_hir_id)));
                "upvar"
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                o.push(("mut", J::B(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                o.push(("e", self.expr(*arg)));
                "borrow"
            }
            ExprKind::RawBorrow { arg, .. } => {
                o.push(("e", self.expr(*arg)));
                "rawborrow"
            }
            ExprKind::Reborrow { source, mutability, .. } => {
                o.push(("e", self.expr(*source)));
                o.push(("mut", J::B(mutability.is_mut())));
                "reborrow"
            }
            ExprKind::Break { label, value } => {
                o.push(("label", s(format!("{:?}", label.local_id))));
                o.push(("e", self.oexpr(*value)));
                "break"
            }
            ExprKind::Continue { label } => {
                o.push(("label", s(format!("{:?}", label.local_id))));
                "continue"
            }
            ExprKind::Return { value } => {
                o.push(("e", self.oexpr(*value)));
                "return"
            }
            ExprKind::Repeat { value, count } => {
                o.push(("e", self.expr(*value)));
                o.push(("n", s(format!("{count}"))));
                "repeat"
            }
            ExprKind::Array { fields } => {
                o.push(("es", self.exprs(fields)));
                "array"
            }
            ExprKind::Tuple { fields } => {
                o.push(("es", self.exprs(fields)));
                "tuple"
            }
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                o.push(("adt", s(self.cx.path(a.adt_def.did()))));
                o.push(("variant", s(v.name.to_string())));
                let mut fs = vec![];
                for f in a.fields.iter() {
                    let e = self.expr(f.expr);
                    fs.push(J::A(vec![s(v.fields[f.name].name.to_string()), e]));
                }
                o.push(("fields", J::A(fs)));
                if let thir::AdtExprBase::Base(b) = &a.base {
                    o.push(("base", self.expr(b.base)));
                }
                "adt"
            }
            ExprKind::Closure(c) => {
                o.push(("id", s(self.cx.id(c.closure_id.to_def_id()))));
                "closure"
            }
            ExprKind::Literal { lit, neg } => {
                let l = self.lit(&lit.node, *neg);
                o.push(("lit", l));
                "lit"
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                let size = lit.size();
                let bits = lit.to_bits(size);
                let v = match e.ty.kind() {
                    ty::Int(_) => size.sign_extend(bits) as i128,
                    _ => bits as i128,
                };
                let kind = match e.ty.kind() {
                    ty::Char => "char",
                    ty::Bool => "bool",
                    _ => "int",
                };
                let val = if kind == "bool" { J::B(v != 0) } else { J::I(v) };
                o.push(("lit", J::A(vec![s(kind), val])));
                "lit"
            }
            ExprKind::ZstLiteral { .. } => {
                match e.ty.kind() {
                    ty::FnDef(d, ga) => {
                        let ga = ga.skip_binder();
                        let c = self.cx.callee((*d).into(), ga, Some(self.owner));
                        o.push(("f", c));
                        "fn"
                    }
                    _ => "zst",
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                let c = self.cx.callee(*def_id, args, None);
                o.push(("f", c));
                // Foreign or local constant of scalar type: evaluate (constant propagation)
                if !args.has_param() {
                    let env = ty::TypingEnv::post_analysis(self.cx.tcx, self.owner);
                    let uv = rustc_middle::mir::UnevaluatedConst::new(*def_id, args);
                    if let Ok(v) = self.cx.tcx.const_eval_resolve(env, uv, e.span) {
                        if let Some(sc) = v.try_to_scalar_int() {
                            let size = sc.size();
                            let bits = sc.to_bits(size);
                            let val = match e.ty.kind() {
                                ty::Int(_) => size.sign_extend(bits) as i128,
                                _ => bits as i128,
                            };
                            o.push(("scalar", J::I(val)));
                        }
                    }
                }
                "const"
            }
            ExprKind::ConstBlock { did, .. } => {
                o.push(("id", s(self.cx.id(*did))));
                "constblock"
            }
            ExprKind::ConstParam { .. } => "constparam",
            ExprKind::StaticRef { def_id, .. } => {
                o.push(("id", s(self.cx.id(*def_id))));
                "static"
            }
            ExprKind::ThreadLocalRef(d) => {
                o.push(("id", s(self.cx.id(*d))));
                "threadlocal"
            }
            ExprKind::InlineAsm(_) => "asm",
            ExprKind::Yield { .. } => "yield",
            ExprKind::Become { .. } => "become",
            ExprKind::ConstContinue { .. } => "constcontinue",
        };
        let mut r = vec![("k", s(k)), ("ty", n(t))];
        r.extend(o);
        J::O(r)
    }
    fn valtree_bits(&mut self, t: Ty<'tcx>, v: ty::ValTree<'tcx>) -> J {
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() => {
                let val = ty::Value { ty: t, valtree: v };
                if let Some(b) = val.try_to_raw_bytes(self.cx.tcx) {
                    return J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                }
                J::A(vec![s("other"), s(format!("{val}"))])
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(l) = v.try_to_leaf() {
                    let size = l.size();
                    let bits = l.to_bits(size);
                    match t.kind() {
                        ty::Bool => J::A(vec![s("bool"), J::B(bits != 0)]),
                        ty::Char => J::A(vec![s("char"), J::I(bits as i128)]),
                        ty::Int(_) => J::A(vec![s("int"), J::I(size.sign_extend(bits) as i128)]),
                        _ => J::A(vec![s("int"), J::I(bits as i128)]),
                    }
                } else {
                    J::A(vec![s("other")])
                }
            }
            _ => {
                let val = ty::Value { ty: t, valtree: v };
                J::A(vec![s("other"), s(format!("{val}"))])
            }
        }
    }
    fn bound(&mut self, t: Ty<'tcx>, b: thir::PatRangeBoundary<'tcx>) -> J {
        match b {
            thir::PatRangeBoundary::Finite(v) => self.valtree_bits(t, v),
            _ => J::Null,
        }
    }
    fn pat(&mut self, p: &thir::Pat<'tcx>) -> J {
        let t = self.cx.ty(p.ty);
        let mut o: Vec<(&'static str, J)> = vec![];
        let k = match &p.kind {
            PatKind::Missing | PatKind::Wild => "wild",
            PatKind::Never => "never",
            PatKind::Error(_) => "error",
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("name", s(name.to_string())));
                o.push(("v", self.var(*var)));
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "move",
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "refmut"
                        } else {
                            "ref"
                        }
                    }
                };
                o.push(("by", s(by)));
                o.push(("sub", subpattern.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null)));
                "bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                o.push(("adt", s(self.cx.path(adt_def.did()))));
                o.push(("variant", s(v.name.to_string())));
                let mut fs = vec![];
                for f in subpatterns.iter() {
                    let sp = self.pat(&f.pattern);
                    fs.push(J::A(vec![s(v.fields[f.field].name.to_string()), sp]));
                }
                o.push(("fields", J::A(fs)));
                if !self.cx.adts.contains_key(&adt_def.did()) {
                    let k = self.cx.adts.len();
                    self.cx.adts.insert(adt_def.did(), k);
                    self.cx.adt_queue.push(adt_def.did());
                }
                "variant"
            }
            PatKind::Leaf { subpatterns } => {
                let mut fs = vec![];
                for f in subpatterns.iter() {
                    let name = match p.ty.kind() {
                        ty::Adt(a, _) => a.non_enum_variant().fields[f.field].name.to_string(),
                        _ => format!("{}", f.field.as_u32()),
                    };
                    let sp = self.pat(&f.pattern);
                    fs.push(J::A(vec![s(name), sp]));
                }
                o.push(("fields", J::A(fs)));
                "leaf"
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                o.push(("sub", self.pat(subpattern)));
                "deref"
            }
            PatKind::Constant { value } => {
                let v = self.valtree_bits(value.ty, value.valtree);
                o.push(("lit", v));
                "const"
            }
            PatKind::Range(r) => {
                let lo = self.bound(r.ty, r.lo);
                let hi = self.bound(r.ty, r.hi);
                o.push(("lo", lo));
                o.push(("hi", hi));
                o.push(("incl", J::B(matches!(r.end, rustc_hir::RangeEnd::Included))));
                "range"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|p| self.pat(p)).collect();
                let b = slice.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null);
                let c = suffix.iter().map(|p| self.pat(p)).collect();
                o.push(("prefix", J::A(a)));
                o.push(("slice", b));
                o.push(("suffix", J::A(c)));
                "slice"
            }
            PatKind::Or { pats } => {
                let v = pats.iter().map(|p| self.pat(p)).collect();
                o.push(("pats", J::A(v)));
                "or"
            }
            PatKind::Guard { .. } => "guard",
        };
        let mut r = vec![("k", s(k)), ("ty", n(t))];
        r.extend(o);
        J::O(r)
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("SJP_DUMP_DIR") else {
            return Compilation::Continue;
        };
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_table: vec![],
            adts: HashMap::new(),
            adt_table: vec![],
            adt_queue: vec![],
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let eff = tcx.effective_visibilities(());
        let mut bodies = vec![];
        for did in tcx.hir_body_owners() {
            let kind = tcx.def_kind(did);
            let d = did.to_def_id();
            let mut o = vec![("id", s(cx.id(d))), ("kind", s(format!("{kind:?}")))];
            o.push(("span", cx.span(tcx.def_span(did))));
            let parent = tcx.opt_parent(d);
            if let Some(p) = parent {
                o.push(("parent", s(cx.id(p))));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("name", s(tcx.item_name(d).to_string())));
                o.push(("reachable", J::B(eff.is_reachable(did))));
                o.push(("exported", J::B(eff.is_exported(did))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<J> = sig.inputs().iter().map(|t| n(cx.ty(*t))).collect();
                let out = cx.ty(sig.output());
                o.push(("inputs", J::A(ins)));
                o.push(("output", n(out)));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                let mut gens = vec![];
                let mut g = Some(tcx.generics_of(d));
                let mut stack = vec![];
                while let Some(gg) = g {
                    stack.push(gg);
                    g = gg.parent.map(|p| tcx.generics_of(p));
                }
                for gg in stack.into_iter().rev() {
                    for p in gg.own_params.iter() {
                        if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                            gens.push(s(p.name.to_string()));
                        }
                    }
                }
                o.push(("generics", J::A(gens)));
                if let Some(_) = tcx.opt_associated_item(d) {
                    let p = tcx.parent(d);
                    if tcx.is_trait(p) {
                        o.push(("of", s("traitdef")));
                        o.push(("trait", s(cx.path(p))));
                    } else if tcx.def_kind(p) == (DefKind::Impl { of_trait: true }) {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("of", s("traitimpl")));
                        o.push(("trait", s(cx.path(tr.def_id))));
                        let h = cx.head(tr.self_ty());
                        o.push(("self_head", s(h)));
                        o.push(("derived", J::B(tcx.is_builtin_derived(p))));
                    } else {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        o.push(("of", s("inherent")));
                        let h = cx.head(st);
                        o.push(("self_head", s(h)));
                    }
                }
            }
            if matches!(kind, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst { .. }) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                o.push(("ty", n(t)));
                if let DefKind::Static { mutability, .. } = kind {
                    o.push(("mut", J::B(mutability.is_mut())));
                    let t0 = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::fully_monomorphized();
                    o.push(("freeze", J::B(t0.is_freeze(tcx, env))));
                }
            }
            match cx.body(did) {
                Some(b) => o.push(("body", b)),
                None => o.push(("body", J::Null)),
            }
            bodies.push(J::O(o));
        }
        // impls
        let mut impls = vec![];
        let items = tcx.hir_crate_items(());
        for id in items.definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(id) {
                let d = id.to_def_id();
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let args = cx.generic_args(tr.args.as_slice());
                let mut ms = vec![];
                let mut tys = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    match it.kind {
                        ty::AssocKind::Fn { .. } => {
                            ms.push(J::A(vec![s(it.name().to_string()), s(cx.id(it.def_id))]));
                        }
                        ty::AssocKind::Type { .. } => {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            tys.push(J::A(vec![s(it.name().to_string()), n(t)]));
                        }
                        _ => {}
                    }
                }
                impls.push(J::O(vec![
                    ("id", s(cx.id(d))),
                    ("trait", s(cx.path(tr.def_id))),
                    ("args", args),
                    ("methods", J::A(ms)),
                    ("types", J::A(tys)),
                    ("derived", J::B(tcx.is_builtin_derived(d))),
                    ("unsafe", J::B(tcx.trait_def(tr.def_id).safety.is_unsafe())),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
        }
        cx.drain_adts();
        let mut lints = vec![];
        let lvl = tcx.lint_level_spec_at_node(
            rustc_lint_defs::builtin::UNSAFE_CODE,
            rustc_hir::CRATE_HIR_ID,
        );
        lints.push(J::A(vec![s("unsafe_code"), s(format!("{:?}", lvl.level()))]));
        let cfgs: Vec<J> = {
            let mut v: Vec<String> = tcx
                .sess
                .config
                .iter()
                .filter_map(|(k, v)| {
                    if k.as_str() == "feature" {
                        v.map(|v| v.to_string())
                    } else {
                        None
                    }
                })
                .collect();
            v.sort();
            v.into_iter().map(s).collect()
        };
        let out = J::O(vec![
            ("crate", s(krate.clone())),
            ("features", J::A(cfgs)),
            ("lints", J::A(lints)),
            ("bodies", J::A(bodies)),
            ("impls", J::A(impls)),
            ("adts", J::A(cx.adt_table.clone())),
            ("types", J::A(cx.ty_table.clone())),
        ]);
        let mut txt = String::new();
        out.write(&mut txt);
        let fname = format!("{dir}/{krate}.json");
        std::fs::write(format!("{fname}.tmp"), txt).expect("write dump");
        std::fs::rename(format!("{fname}.tmp"), fname).expect("rename dump");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    args.push("-Zno-steal-thir".into());
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    })
}
