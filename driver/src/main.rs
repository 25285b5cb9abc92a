//! A rustc driver that dumps the type-checked program (THIR) of the crate under analysis as
//! JSON: every body (functions, closures, consts, statics) with resolved callees, every ADT
//! and every impl.  It is injected with RUSTC_WORKSPACE_WRAPPER; it never runs the crate.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    S(String),
    I(i128),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::S(x) => esc(o, x),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    e.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    e.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(o, k);
                    o.push(':');
                    e.w(o)
                }
                o.push('}')
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.key(d)
    }
    /// unique key of a definition (crate-relative, with impl/closure disambiguators)
    fn key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return J::I(*i as i128);
        }
        let j = self.ty_j(t);
        let i = self.types.len();
        self.types.push(j);
        self.tymap.insert(t, i);
        J::I(i as i128)
    }
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = a.as_const() {
                v.push(s(format!("{}", c)));
            }
        }
        J::A(v)
    }
    fn ty_j(&mut self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(i) => J::O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Uint(i) => J::O(vec![("k", s("int")), ("n", s(i.name_str()))]),
            ty::Float(i) => J::O(vec![("k", s("float")), ("n", s(i.name_str()))]),
            ty::Adt(d, a) => {
                let p = self.path(d.did());
                let a = self.args(a);
                J::O(vec![("k", s("adt")), ("p", s(p)), ("a", a)])
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", t)])
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                J::O(vec![("k", s("slice")), ("t", t)])
            }
            ty::Array(t, n) => {
                let t = self.ty(*t);
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => J::I(n as i128),
                    None => s(format!("{}", n)),
                };
                J::O(vec![("k", s("array")), ("t", t), ("n", n)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("ts", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("p", s(self.key(*d)))]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                let f = self.fnref(*d, a);
                J::O(vec![("k", s("fndef")), ("f", f)])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(preds, _) => {
                let p = match preds.principal_def_id() {
                    Some(d) => self.path(d),
                    None => String::new(),
                };
                let a = match preds.principal() {
                    Some(pr) => {
                        let pr = self.tcx.erase_and_anonymize_regions(pr);
                        let mut v = vec![];
                        for a in pr.skip_binder().args.iter() {
                            if let Some(t) = a.as_type() {
                                v.push(self.ty(t));
                            }
                        }
                        J::A(v)
                    }
                    None => J::A(vec![]),
                };
                J::O(vec![("k", s("dyn")), ("p", s(p)), ("a", a)])
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{}", t)))]),
        }
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.path(d))), ("key", s(self.key(d)))];
        let a = self.args(args);
        o.push(("a", a));
        o.push(("local", J::B(d.is_local())));
        o.push(("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())));
        // names of the generic parameters, so that a substitution can be formed
        let g = tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if let ty::GenericParamDefKind::Lifetime = p.kind {
                continue;
            }
            names.push(s(p.name.to_string()));
        }
        o.push(("gn", J::A(names)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("implself", st));
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                o.push(("implof", s(self.path(tr))));
            }
        }
        J::O(o)
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            n => format!("{}", n.prefer_local_unconditionally()),
        };
        J::A(vec![s(f), J::I(lo.line as i128)])
    }
}

struct Bx<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    th: &'a Thir<'tcx>,
    owner: LocalDefId,
}

fn has_mutability(b: &rustc_middle::mir::BorrowKind) -> bool {
    matches!(b, rustc_middle::mir::BorrowKind::Mut { .. })
}

impl<'a, 'tcx> Bx<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> J {
        s(format!("v{}", v.0.local_id.as_u32()))
    }
    fn e(&mut self, id: ExprId) -> J {
        let ex = &self.th.exprs[id];
        match &ex.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                let inner = &self.th.exprs[*value];
                if matches!(inner.kind, ExprKind::Loop { .. } | ExprKind::Block { .. }) {
                    let v = self.e(*value);
                    return J::O(vec![
                        ("k", s("Scope")),
                        ("id", J::I(region_scope.local_id.as_u32() as i128)),
                        ("v", v),
                    ]);
                }
                return self.e(*value);
            }
            _ => {}
        }
        let ty = self.cx.ty(ex.ty);
        let sp = self.cx.span(ex.span);
        let mut o: Vec<(&'static str, J)> = vec![("ty", ty), ("sp", sp)];
        let k = match &ex.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                o.push(("c", self.e(*cond)));
                o.push(("t", self.e(*then)));
                if let Some(x) = else_opt {
                    o.push(("e", self.e(*x)));
                }
                "If"
            }
            ExprKind::Call { ty, fun, args, .. } => {
                match ty.kind() {
                    ty::FnDef(d, a) => {
                        let a0 = a.skip_binder();
                        let f = self.cx.fnref(*d, a0);
                        o.push(("f", f));
                        // resolve trait methods to the implementation where that is possible here
                        let tcx = self.cx.tcx;
                        let te = ty::TypingEnv::post_analysis(tcx, self.owner.to_def_id());
                        let a1 = tcx.erase_and_anonymize_regions(a0);
                        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, *d, a1) {
                            let rd = inst.def_id();
                            if rd != *d {
                                let f = self.cx.fnref(rd, inst.args);
                                o.push(("r", f));
                            }
                        }
                    }
                    _ => {
                        o.push(("fe", self.e(*fun)));
                    }
                }
                let v = args.iter().map(|a| self.e(*a)).collect();
                o.push(("args", J::A(v)));
                "Call"
            }
            ExprKind::ByUse { expr, .. } => return self.e(*expr),
            ExprKind::Deref { arg } => {
                o.push(("v", self.e(*arg)));
                "Deref"
            }
            ExprKind::Binary { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Binary"
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Logical"
            }
            ExprKind::Unary { op, arg } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("v", self.e(*arg)));
                "Unary"
            }
            ExprKind::Cast { source } => {
                o.push(("v", self.e(*source)));
                "Cast"
            }
            ExprKind::ValueExpr { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => return self.e(*source),
            ExprKind::NeverToAny { source } => {
                o.push(("v", self.e(*source)));
                "Never"
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                o.push(("v", self.e(*source)));
                o.push(("c", s(format!("{:?}", cast))));
                "Coerce"
            }
            ExprKind::Loop { body } => {
                o.push(("b", self.e(*body)));
                "Loop"
            }
            ExprKind::Let { expr, pat } => {
                o.push(("v", self.e(*expr)));
                o.push(("p", self.p(pat)));
                "Let"
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                o.push(("v", self.e(*scrutinee)));
                o.push(("src", s(format!("{:?}", match_source))));
                let mut v = vec![];
                for a in arms.iter() {
                    let arm = &self.th.arms[*a];
                    let p = self.p(&arm.pattern);
                    let g = match arm.guard {
                        Some(g) => self.e(g),
                        None => J::Null,
                    };
                    let b = self.e(arm.body);
                    v.push(J::O(vec![("p", p), ("g", g), ("b", b)]));
                }
                o.push(("arms", J::A(v)));
                "Match"
            }
            ExprKind::Block { block } => {
                let b = self.block(*block);
                o.push(("b", b));
                "Block"
            }
            ExprKind::Assign { lhs, rhs } => {
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "Assign"
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                o.push(("op", s(format!("{:?}", op))));
                o.push(("l", self.e(*lhs)));
                o.push(("r", self.e(*rhs)));
                "AssignOp"
            }
            ExprKind::Field { lhs, variant_index, name } => {
                o.push(("v", self.e(*lhs)));
                o.push(("vi", J::I(variant_index.as_u32() as i128)));
                o.push(("i", J::I(name.as_u32() as i128)));
                "Field"
            }
            ExprKind::Index { lhs, index } => {
                o.push(("v", self.e(*lhs)));
                o.push(("i", self.e(*index)));
                "Index"
            }
            ExprKind::VarRef { id } => {
                o.push(("v", self.var(*id)));
                "Var"
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o.push(("v", self.var(*var_hir_id)));
                "Upvar"
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                o.push(("m", J::B(has_mutability(borrow_kind))));
                o.push(("v", self.e(*arg)));
                "Borrow"
            }
            ExprKind::RawBorrow { arg, .. } => {
                o.push(("v", self.e(*arg)));
                "RawBorrow"
            }
            ExprKind::Break { label, value } => {
                o.push(("id", J::I(label.local_id.as_u32() as i128)));
                if let Some(v) = value {
                    o.push(("v", self.e(*v)));
                }
                "Break"
            }
            ExprKind::Continue { label } => {
                o.push(("id", J::I(label.local_id.as_u32() as i128)));
                "Continue"
            }
            ExprKind::Return { value } => {
                if let Some(v) = value {
                    o.push(("v", self.e(*v)));
                }
                "Return"
            }
            ExprKind::Repeat { value, count } => {
                o.push(("v", self.e(*value)));
                let n = match count.try_to_target_usize(self.cx.tcx) {
                    Some(n) => J::I(n as i128),
                    None => s(format!("{}", count)),
                };
                o.push(("n", n));
                "Repeat"
            }
            ExprKind::Array { fields } => {
                let v = fields.iter().map(|a| self.e(*a)).collect();
                o.push(("xs", J::A(v)));
                "Array"
            }
            ExprKind::Tuple { fields } => {
                let v = fields.iter().map(|a| self.e(*a)).collect();
                o.push(("xs", J::A(v)));
                "Tuple"
            }
            ExprKind::Adt(a) => {
                o.push(("p", s(self.cx.path(a.adt_def.did()))));
                o.push(("vi", J::I(a.variant_index.as_u32() as i128)));
                let v = a
                    .fields
                    .iter()
                    .map(|f| J::A(vec![J::I(f.name.as_u32() as i128), self.e(f.expr)]))
                    .collect();
                o.push(("fs", J::A(v)));
                if let AdtExprBase::Base(b) = &a.base {
                    o.push(("base", self.e(b.base)));
                }
                "Adt"
            }
            ExprKind::Closure(c) => {
                let did = c.closure_id.to_def_id();
                o.push(("p", s(self.cx.key(did))));
                let caps: Vec<J> = self
                    .cx
                    .tcx
                    .closure_captures(c.closure_id)
                    .iter()
                    .map(|c| self.var(LocalVarId(c.get_root_variable_hir())))
                    .collect();
                o.push(("caps", J::A(caps)));
                let v = c.upvars.iter().map(|a| self.e(*a)).collect();
                o.push(("ups", J::A(v)));
                "Closure"
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                o.push(("neg", J::B(*neg)));
                match &lit.node {
                    LitKind::Str(x, _) => {
                        o.push(("t", s("str")));
                        o.push(("v", s(x.to_string())));
                    }
                    LitKind::ByteStr(x, _) | LitKind::CStr(x, _) => {
                        o.push(("t", s("bytes")));
                        let h: String =
                            x.as_byte_str().iter().map(|b| format!("{:02x}", b)).collect();
                        o.push(("v", s(h)));
                    }
                    LitKind::Byte(b) => {
                        o.push(("t", s("int")));
                        o.push(("v", J::I(*b as i128)));
                    }
                    LitKind::Char(c) => {
                        o.push(("t", s("char")));
                        o.push(("v", s(c.to_string())));
                    }
                    LitKind::Int(i, _) => {
                        o.push(("t", s("int")));
                        o.push(("v", s(format!("{}", i.get()))));
                    }
                    LitKind::Bool(b) => {
                        o.push(("t", s("bool")));
                        o.push(("v", J::B(*b)));
                    }
                    _ => {
                        o.push(("t", s("other")));
                    }
                }
                "Lit"
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                o.push(("neg", J::B(false)));
                if ex.ty.is_bool() {
                    o.push(("t", s("bool")));
                    o.push(("v", J::B(lit.to_bits(lit.size()) != 0)));
                } else {
                    o.push(("t", s("int")));
                    o.push(("v", s(format!("{}", lit.to_bits(lit.size())))));
                }
                "Lit"
            }
            ExprKind::ZstLiteral { .. } => "Zst",
            ExprKind::NamedConst { def_id, args, .. } => {
                o.push(("p", s(self.cx.path(*def_id))));
                o.push(("key", s(self.cx.key(*def_id))));
                let of_trait = self.cx.tcx.trait_of_assoc(*def_id).is_some();
                if of_trait {
                    let f = self.cx.fnref(*def_id, args);
                    o.push(("f", f));
                }
                // scalar constants of other crates: let the compiler tell the value
                if !of_trait && (ex.ty.is_integral() || ex.ty.is_bool()) {
                    let tcx = self.cx.tcx;
                    if let Ok(c) = tcx.const_eval_poly(*def_id) {
                        if let Some(sc) = c.try_to_scalar_int() {
                            o.push(("val", s(format!("{}", sc.to_bits(sc.size())))));
                        }
                    }
                }
                "Const"
            }
            ExprKind::StaticRef { def_id, .. } => {
                o.push(("p", s(self.cx.path(*def_id))));
                o.push(("key", s(self.cx.key(*def_id))));
                "Static"
            }
            ExprKind::ConstParam { param, .. } => {
                o.push(("n", s(param.name.to_string())));
                "ConstParam"
            }
            _ => "Other",
        };
        o.insert(0, ("k", s(k)));
        J::O(o)
    }
    fn block(&mut self, b: BlockId) -> J {
        let bl = &self.th.blocks[b];
        let mut v = vec![];
        for st in bl.stmts.iter() {
            match &self.th.stmts[*st].kind {
                StmtKind::Expr { expr, .. } => {
                    let e = self.e(*expr);
                    v.push(J::O(vec![("k", s("E")), ("e", e)]));
                }
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let mut o = vec![("k", s("L")), ("p", self.p(pattern))];
                    if let Some(i) = initializer {
                        o.push(("i", self.e(*i)));
                    }
                    if let Some(b) = else_block {
                        o.push(("else", self.block(*b)));
                    }
                    v.push(J::O(o));
                }
            }
        }
        let mut o = vec![("s", J::A(v))];
        if let Some(e) = bl.expr {
            o.push(("e", self.e(e)));
        }
        o.push(("brk", J::B(bl.targeted_by_break)));
        J::O(o)
    }
    fn p(&mut self, p: &Pat<'tcx>) -> J {
        let ty = self.cx.ty(p.ty);
        let mut o = vec![("ty", ty)];
        let k = match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => "Wild",
            PatKind::Binding { name, mode, var, subpattern, ty, .. } => {
                o.push(("n", s(name.to_string())));
                o.push(("v", self.var(*var)));
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "val",
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "mut"
                        } else {
                            "ref"
                        }
                    }
                };
                o.push(("by", s(by)));
                let vt = self.cx.ty(*ty);
                o.push(("vty", vt));
                if let Some(sp) = subpattern {
                    o.push(("sub", self.p(sp)));
                }
                "Bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                o.push(("p", s(self.cx.path(adt_def.did()))));
                o.push(("vi", J::I(variant_index.as_u32() as i128)));
                let v = subpatterns
                    .iter()
                    .map(|f| J::A(vec![J::I(f.field.as_u32() as i128), self.p(&f.pattern)]))
                    .collect();
                o.push(("fs", J::A(v)));
                "Variant"
            }
            PatKind::Leaf { subpatterns } => {
                let v = subpatterns
                    .iter()
                    .map(|f| J::A(vec![J::I(f.field.as_u32() as i128), self.p(&f.pattern)]))
                    .collect();
                o.push(("fs", J::A(v)));
                "Leaf"
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("sub", self.p(subpattern)));
                "Deref"
            }
            PatKind::DerefPattern { subpattern, .. } => {
                o.push(("sub", self.p(subpattern)));
                "Deref"
            }
            PatKind::Constant { value } => {
                let mut done = false;
                if let Some(sc) = value.try_to_leaf() {
                    o.push(("int", s(format!("{}", sc.to_bits(sc.size())))));
                    o.push(("bool", J::B(value.ty.is_bool())));
                    done = true;
                }
                if !done {
                    o.push(("txt", s(format!("{}", value))));
                }
                "Const"
            }
            PatKind::Range(r) => {
                o.push(("txt", s(format!("{}", r))));
                "Range"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|x| self.p(x)).collect();
                o.push(("pre", J::A(a)));
                if let Some(x) = slice {
                    o.push(("mid", self.p(x)));
                }
                let b = suffix.iter().map(|x| self.p(x)).collect();
                o.push(("suf", J::A(b)));
                "Slice"
            }
            PatKind::Or { pats } => {
                let a = pats.iter().map(|x| self.p(x)).collect();
                o.push(("ps", J::A(a)));
                "Or"
            }
            _ => "Other",
        };
        o.insert(0, ("k", s(k)));
        J::O(o)
    }
}

trait RootVar {
    fn get_root_variable_hir(&self) -> rustc_hir::HirId;
}
impl<'tcx> RootVar for ty::CapturedPlace<'tcx> {
    fn get_root_variable_hir(&self) -> rustc_hir::HirId {
        match self.place.base {
            rustc_middle::hir::place::PlaceBase::Upvar(u) => u.var_path.hir_id,
            _ => panic!("capture without root variable"),
        }
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new() };
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            let (th, root) = match tcx.thir_body(def) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let th = th.borrow();
            let th: &Thir<'tcx> = &th;
            let mut o = vec![
                ("key", s(cx.key(did))),
                ("path", s(cx.path(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(did))),
            ];
            o.push(("name", s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())));
            let g = tcx.generics_of(tcx.typeck_root_def_id(did));
            let mut names = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if let ty::GenericParamDefKind::Lifetime = p.kind {
                    continue;
                }
                names.push(s(p.name.to_string()));
            }
            o.push(("gn", J::A(names)));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("pub", J::B(tcx.visibility(did).is_public())));
                if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    o.push(("implself", st));
                    if let Some(tr) = tcx.impl_opt_trait_id(im) {
                        o.push(("implof", s(cx.path(tr))));
                    }
                    o.push((
                        "derived",
                        J::B(tcx.is_automatically_derived(im)),
                    ));
                }
                let mut cfg_test = false;
                let mut cur = Some(did);
                while let Some(d) = cur {
                    if tcx.opt_item_name(d).map(|n| n.as_str() == "tests").unwrap_or(false) {
                        cfg_test = true;
                    }
                    cur = tcx.opt_parent(d);
                }
                o.push(("test", J::B(cfg_test)));
            }
            let mut bx = Bx { cx: &mut cx, th, owner: def };
            let mut ps = vec![];
            for p in th.params.iter() {
                let ty = bx.cx.ty(p.ty);
                let pat = match &p.pat {
                    Some(p) => bx.p(p),
                    None => J::Null,
                };
                ps.push(J::O(vec![("ty", ty), ("p", pat), ("self", J::B(p.self_kind.is_some()))]));
            }
            o.push(("params", J::A(ps)));
            let ret = match &th.body_type {
                BodyTy::Const(t) | BodyTy::GlobalAsm(t) => *t,
                BodyTy::Fn(sig) => sig.output(),
            };
            let rt = bx.cx.ty(ret);
            o.push(("ret", rt));
            let b = bx.e(root);
            o.push(("body", b));
            bodies.push(J::O(o));
        }
        // ADTs and impls of this crate
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    adts.push((cx.path(did), adt(&mut cx, did)));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let mut o = vec![("self", st), ("span", cx.span(tcx.def_span(did)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        let a = cx.args(tr.args);
                        o.push(("targs", a));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        let nm = it.opt_name().map(|n| n.to_string()).unwrap_or_default();
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            let t = cx.ty(t);
                            items.push((format!("type {}", nm), t));
                        } else {
                            items.push((nm, s(cx.key(it.def_id))));
                        }
                    }
                    o.push(("items", J::M(items)));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let cname = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let types = std::mem::take(&mut cx.types);
        // foreign ADTs that occur in types are described too (field names/types)
        let top = J::O(vec![
            ("crate", s(cname.clone())),
            ("types", J::A(types)),
            ("bodies", J::A(bodies)),
            ("adts", J::M(adts)),
            ("impls", J::A(impls)),
        ]);
        let mut out = String::new();
        top.w(&mut out);
        let p = format!("{}/{}.json", self.out, cname);
        let tmp = format!("{}.tmp{}", p, std::process::id());
        std::fs::write(&tmp, out).expect("write dump");
        std::fs::rename(&tmp, &p).expect("rename dump");
        Compilation::Continue
    }
}

fn adt<'tcx>(cx: &mut Cx<'tcx>, did: DefId) -> J {
    let tcx = cx.tcx;
    let d = tcx.adt_def(did);
    let mut vs = vec![];
    for v in d.variants() {
        let mut fs = vec![];
        for f in v.fields.iter() {
            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
            let t = cx.ty(t);
            fs.push(J::O(vec![
                ("n", s(f.name.to_string())),
                ("ty", t),
                ("pub", J::B(f.vis.is_public())),
            ]));
        }
        vs.push(J::O(vec![("n", s(v.name.to_string())), ("fs", J::A(fs))]));
    }
    J::O(vec![
        ("enum", J::B(d.is_enum())),
        ("vs", J::A(vs)),
        ("span", cx.span(tcx.def_span(did))),
    ])
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("THIRDUMP_OUT").unwrap_or_default();
    let krate = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let want = std::env::var("THIRDUMP_CRATE").unwrap_or_default();
    if !out.is_empty() && krate.as_deref() == Some(&want) {
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
