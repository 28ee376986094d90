//! Dumps the typed, macro-expanded, name-resolved bodies (THIR) of the local crate as JSON.
//! Run as RUSTC_WORKSPACE_WRAPPER; the output path is in $GSX_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};
use std::fmt::Write as _;

struct Cb;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(kv: &[(&str, String)]) -> String {
    let v: Vec<String> = kv.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    thir: &'a Thir<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.def_path_str(d)
}

/// Unambiguous name of a local or external function or type.
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate);
    format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose())
}

fn jty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Bool => arr([q("bool")]),
        ty::Char => arr([q("char")]),
        ty::Int(i) => arr([q("int"), q(i.name_str())]),
        ty::Uint(i) => arr([q("uint"), q(i.name_str())]),
        ty::Float(_) => arr([q("float")]),
        ty::Str => arr([q("str")]),
        ty::Never => arr([q("never")]),
        ty::Adt(def, args) => arr([
            q("adt"),
            q(&path(tcx, def.did())),
            jargs(tcx, args),
        ]),
        ty::Ref(_, t, m) => arr([
            q("ref"),
            if m.is_mut() { "true".into() } else { "false".into() },
            jty(tcx, *t),
        ]),
        ty::RawPtr(t, _) => arr([q("ptr"), jty(tcx, *t)]),
        ty::Slice(t) => arr([q("slice"), jty(tcx, *t)]),
        ty::Array(t, n) => arr([q("array"), jty(tcx, *t), q(&format!("{n}"))]),
        ty::Tuple(ts) => arr([q("tuple"), arr(ts.iter().map(|t| jty(tcx, t)))]),
        ty::Param(p) => arr([q("param"), q(p.name.as_str())]),
        ty::Closure(d, _) => arr([q("closure"), q(&key(tcx, *d))]),
        ty::FnDef(d, args) => arr([q("fndef"), q(&path(tcx, *d)), format!("{:?}", format!("{args:?}"))]),
        _ => {
            if let ty::Alias(_, a) = t.kind() {
                if let ty::Projection { def_id } = a.kind {
                    arr([q("alias"), q(&format!("{t}")), q(&path(tcx, tcx.parent(def_id))), q(tcx.item_name(def_id).as_str()), jargs(tcx, a.args)])
                } else {
                    arr([q("alias"), q(&format!("{t}"))])
                }
            } else {
                arr([q("other"), q(&format!("{t:?}"))])
            }
        }
    }
}
fn jargs<'tcx>(tcx: TyCtxt<'tcx>, args: ty::GenericArgsRef<'tcx>) -> String {
    arr(args.iter().filter_map(|a| a.as_type().map(|t| jty(tcx, t))))
}

/// types and constants
fn jall<'tcx>(tcx: TyCtxt<'tcx>, args: ty::GenericArgsRef<'tcx>) -> String {
    arr(args.iter().filter_map(|a| {
        a.as_type().map(|t| jty(tcx, t)).or_else(|| a.as_const().map(|c| arr([q("const"), q(&format!("{c}"))])))
    }))
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        jty(self.tcx, t)
    }
    fn lid(&self, id: LocalVarId) -> String {
        q(&format!("{}_{}", self.tcx.hir_name(id.0), id.0.local_id.as_u32()))
    }
    fn e(&self, id: ExprId) -> String {
        let ex = &self.thir.exprs[id];
        let (k, mut f) = self.kind(&ex.kind, ex.ty);
        f.insert(0, ("k", q(k)));
        f.push(("ty", self.ty(ex.ty)));
        let lo = self.tcx.sess.source_map().lookup_char_pos(ex.span.source_callsite().lo());
        f.push(("line", lo.line.to_string()));
        obj(&f)
    }
    /// the variable a closure captures by value, if it does
    fn byval(&self, id: ExprId) -> Option<String> {
        match &self.thir.exprs[id].kind {
            ExprKind::Scope { value, .. } => self.byval(*value),
            ExprKind::Field { lhs, .. } => self.byval(*lhs),
            ExprKind::Deref { arg } => self.byval(*arg),
            ExprKind::VarRef { id } => Some(self.lid(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => Some(self.lid(*var_hir_id)),
            _ => None,
        }
    }
    fn oe(&self, id: Option<ExprId>) -> String {
        id.map_or("null".into(), |e| self.e(e))
    }
    fn fndef(&self, t: Ty<'tcx>) -> String {
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let tcx = self.tcx;
            let e_args = tcx.erase_and_anonymize_regions(args);
            let res = ty::Instance::try_resolve(tcx, self.env, *d, e_args);
            let (rd, rargs, how) = match res {
                Ok(Some(i)) => (i.def_id(), i.args, "resolved"),
                _ => (*d, e_args, "unresolved"),
            };
            obj(&[
                ("path", q(&path(tcx, *d))),
                ("key", q(&key(tcx, *d))),
                ("args", jargs(tcx, e_args)),
                ("rpath", q(&path(tcx, rd))),
                ("rkey", q(&key(tcx, rd))),
                ("rargs", jall(tcx, rargs)),
                ("aargs", jall(tcx, e_args)),
                ("local", rd.is_local().to_string()),
                ("how", q(how)),
            ])
        } else {
            "null".into()
        }
    }
    fn block(&self, b: BlockId) -> String {
        let b = &self.thir.blocks[b];
        let stmts = arr(b.stmts.iter().map(|s| match &self.thir.stmts[*s].kind {
            StmtKind::Expr { expr, .. } => obj(&[("s", q("expr")), ("e", self.e(*expr))]),
            StmtKind::Let { pattern, initializer, else_block, .. } => obj(&[
                ("s", q("let")),
                ("pat", self.pat(pattern)),
                ("init", self.oe(*initializer)),
                ("else", else_block.map_or("null".into(), |b| self.block(b))),
            ]),
        }));
        obj(&[
            ("stmts", stmts),
            ("expr", self.oe(b.expr)),
            ("targeted", b.targeted_by_break.to_string()),
        ])
    }
    fn pat(&self, p: &Pat<'tcx>) -> String {
        let t = ("ty", self.ty(p.ty));
        match &p.kind {
            PatKind::Wild => obj(&[("p", q("wild")), t]),
            PatKind::Never => obj(&[("p", q("never")), t]),
            PatKind::Binding { var, mode, subpattern, .. } => obj(&[
                ("p", q("bind")),
                ("var", self.lid(*var)),
                ("mode", q(&format!("{mode:?}"))),
                ("sub", subpattern.as_ref().map_or("null".into(), |s| self.pat(s))),
                t,
            ]),
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => obj(&[
                ("p", q("variant")),
                ("adt", q(&path(self.tcx, adt_def.did()))),
                ("variant", q(adt_def.variant(*variant_index).name.as_str())),
                ("vi", variant_index.as_u32().to_string()),
                ("nf", adt_def.variant(*variant_index).fields.len().to_string()),
                ("subs", self.subpats(subpatterns)),
                t,
            ]),
            PatKind::Leaf { subpatterns } => obj(&[("p", q("leaf")), ("subs", self.subpats(subpatterns)), t]),
            PatKind::Deref { subpattern, .. } => obj(&[("p", q("deref")), ("sub", self.pat(subpattern)), t]),
            PatKind::Constant { value } => obj(&[("p", q("const")), ("value", q(&format!("{value}"))), t]),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => obj(&[
                ("p", q("slice")),
                ("prefix", arr(prefix.iter().map(|p| self.pat(p)))),
                ("mid", slice.as_ref().map_or("null".into(), |s| self.pat(s))),
                ("suffix", arr(suffix.iter().map(|p| self.pat(p)))),
                t,
            ]),
            PatKind::Range(r) => obj(&[("p", q("range")), ("value", q(&format!("{r}"))), t]),
            PatKind::Or { pats } => obj(&[("p", q("or")), ("pats", arr(pats.iter().map(|p| self.pat(p)))), t]),
            k => obj(&[("p", q("unsupported")), ("dbg", q(&format!("{k:?}"))), t]),
        }
    }
    fn subpats(&self, s: &[FieldPat<'tcx>]) -> String {
        arr(s.iter().map(|f| arr([f.field.as_u32().to_string(), self.pat(&f.pattern)])))
    }
    fn kind(&self, k: &ExprKind<'tcx>, t: Ty<'tcx>) -> (&'static str, Vec<(&'static str, String)>) {
        match k {
            ExprKind::Scope { value, region_scope, .. } => {
                ("paren", vec![("e", self.e(*value)), ("scope", q(&format!("{region_scope:?}")))])
            }
            ExprKind::If { cond, then, else_opt, .. } => (
                "if",
                vec![("c", self.e(*cond)), ("t", self.e(*then)), ("f", self.oe(*else_opt))],
            ),
            ExprKind::Call { ty, fun, args, .. } => (
                "call",
                vec![
                    ("fn", self.fndef(*ty)),
                    ("fune", if let ty::FnDef(..) = ty.kind() { "null".into() } else { self.e(*fun) }),
                    ("args", arr(args.iter().map(|a| self.e(*a)))),
                ],
            ),
            ExprKind::Deref { arg, .. } => ("deref", vec![("e", self.e(*arg))]),
            ExprKind::Binary { op, lhs, rhs } => (
                "bin",
                vec![("op", q(&format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            ),
            ExprKind::LogicalOp { op, lhs, rhs } => (
                "logic",
                vec![("op", q(&format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            ),
            ExprKind::Unary { op, arg } => ("un", vec![("op", q(&format!("{op:?}"))), ("e", self.e(*arg))]),
            ExprKind::Cast { source } => ("cast", vec![("e", self.e(*source))]),
            ExprKind::ValueExpr { source } => ("paren", vec![("e", self.e(*source))]),
            ExprKind::NeverToAny { source } => ("nevertoany", vec![("e", self.e(*source))]),
            ExprKind::PointerCoercion { cast, source, .. } => (
                "coerce",
                vec![("cast", q(&format!("{cast:?}"))), ("e", self.e(*source))],
            ),
            ExprKind::Loop { body } => ("loop", vec![("e", self.e(*body))]),
            ExprKind::Let { expr, pat } => ("letcond", vec![("e", self.e(*expr)), ("pat", self.pat(pat))]),
            ExprKind::Match { scrutinee, arms, .. } => (
                "match",
                vec![
                    ("e", self.e(*scrutinee)),
                    (
                        "arms",
                        arr(arms.iter().map(|a| {
                            let a = &self.thir.arms[*a];
                            obj(&[
                                ("pat", self.pat(&a.pattern)),
                                ("guard", self.oe(a.guard)),
                                ("body", self.e(a.body)),
                            ])
                        })),
                    ),
                ],
            ),
            ExprKind::Block { block } => ("block", vec![("b", self.block(*block))]),
            ExprKind::Assign { lhs, rhs } => ("assign", vec![("l", self.e(*lhs)), ("r", self.e(*rhs))]),
            ExprKind::AssignOp { op, lhs, rhs } => (
                "assignop",
                vec![("op", q(&format!("{op:?}"))), ("l", self.e(*lhs)), ("r", self.e(*rhs))],
            ),
            ExprKind::Field { lhs, variant_index, name } => (
                "field",
                vec![
                    ("e", self.e(*lhs)),
                    ("vi", variant_index.as_u32().to_string()),
                    ("i", name.as_u32().to_string()),
                ],
            ),
            ExprKind::Index { lhs, index, .. } => ("index", vec![("e", self.e(*lhs)), ("i", self.e(*index))]),
            ExprKind::VarRef { id } => ("var", vec![("id", self.lid(*id))]),
            ExprKind::UpvarRef { var_hir_id, .. } => ("var", vec![("id", self.lid(*var_hir_id)), ("up", "true".into())]),
            ExprKind::Borrow { borrow_kind, arg } => (
                "borrow",
                vec![("kind", q(&format!("{borrow_kind:?}"))), ("e", self.e(*arg))],
            ),
            ExprKind::Break { value, label } => (
                "break",
                vec![("e", self.oe(*value)), ("label", q(&format!("{label:?}")))],
            ),
            ExprKind::Continue { label } => ("continue", vec![("label", q(&format!("{label:?}")))]),
            ExprKind::Return { value } => ("return", vec![("e", self.oe(*value))]),
            ExprKind::Repeat { value, count } => (
                "repeat",
                vec![("e", self.e(*value)), ("n", q(&format!("{count}")))],
            ),
            ExprKind::Array { fields } => ("array", vec![("es", arr(fields.iter().map(|a| self.e(*a))))]),
            ExprKind::Tuple { fields } => ("tuple", vec![("es", arr(fields.iter().map(|a| self.e(*a))))]),
            ExprKind::Adt(a) => (
                "adt",
                vec![
                    ("adt", q(&path(self.tcx, a.adt_def.did()))),
                    ("variant", q(a.adt_def.variant(a.variant_index).name.as_str())),
                    ("vi", a.variant_index.as_u32().to_string()),
                    (
                        "fields",
                        arr(a.fields.iter().map(|f| arr([f.name.as_u32().to_string(), self.e(f.expr)]))),
                    ),
                    (
                        "base",
                        match &a.base {
                            AdtExprBase::None => "null".into(),
                            AdtExprBase::Base(b) => self.e(b.base),
                            _ => q("unsupported"),
                        },
                    ),
                ],
            ),
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                ("paren", vec![("e", self.e(*source))])
            }
            ExprKind::Closure(c) => (
                "closure",
                vec![
                    ("def", q(&key(self.tcx, c.closure_id.to_def_id()))),
                    ("byval", arr(c.upvars.iter().filter_map(|u| self.byval(*u)))),
                ],
            ),
            ExprKind::Literal { lit, neg } => (
                "lit",
                vec![("lit", q(&format!("{}", lit.node))), ("neg", neg.to_string()), ("dbg", q(&format!("{:?}", lit.node)))],
            ),
            ExprKind::NonHirLiteral { lit, .. } => ("lit", vec![("lit", q(&format!("{lit:?}"))), ("neg", "false".into())]),
            ExprKind::ZstLiteral { .. } => ("fnref", vec![("fn", self.fndef(t))]),
            ExprKind::NamedConst { def_id, args, .. } => (
                "const",
                vec![("path", q(&path(self.tcx, *def_id))), ("key", q(&key(self.tcx, *def_id))), ("args", jargs(self.tcx, args)), ("local", def_id.is_local().to_string())],
            ),
            ExprKind::StaticRef { def_id, .. } if !self.tcx.is_mutable_static(*def_id) => (
                "static",
                vec![("path", q(&path(self.tcx, *def_id))), ("key", q(&key(self.tcx, *def_id))), ("local", def_id.is_local().to_string())],
            ),
            ExprKind::ConstParam { param, .. } => ("constparam", vec![("name", q(&format!("{}", param.name)))]),
            ExprKind::ConstBlock { did, .. } => ("constblock", vec![("key", q(&key(self.tcx, *did)))]),
            k => ("unsupported", vec![("dbg", q(&format!("{k:?}")))]),
        }
    }
}

fn dump(tcx: TyCtxt<'_>) -> String {
    let mut fns = vec![];
    for def in tcx.hir_body_owners() {
        let did = def.to_def_id();
        let dkind = tcx.def_kind(did);
        let dk = format!("{dkind:?}");
        let Ok((thir, root)) = tcx.thir_body(def) else { continue };
        let thir = thir.borrow();
        let env = ty::TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did));
        let cx = Cx { tcx, thir: &thir, env };
        let params = arr(thir.params.iter().map(|p| {
            obj(&[
                ("pat", p.pat.as_ref().map_or("null".into(), |p| cx.pat(p))),
                ("ty", cx.ty(p.ty)),
                ("selfk", q(&format!("{:?}", p.self_kind))),
            ])
        }));
        let mut f = vec![
            ("key", q(&key(tcx, did))),
            ("path", q(&path(tcx, did))),
            ("kind", q(&dk)),
            ("params", params),
            ("body", cx.e(root)),
            ("ret", cx.ty(thir.exprs[root].ty)),
        ];
        let lo = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).lo());
        f.push(("line", lo.line.to_string()));
        f.push(("file", q(&format!("{}", lo.file.name.prefer_local_unconditionally()))));
        if matches!(
            dkind,
            rustc_hir::def::DefKind::Fn
                | rustc_hir::def::DefKind::AssocFn
                | rustc_hir::def::DefKind::Const { .. }
                | rustc_hir::def::DefKind::AssocConst { .. }
                | rustc_hir::def::DefKind::Static { .. }
        ) {
            f.push(("vis", q(&format!("{:?}", tcx.visibility(did)))));
            if let Some(imp) = tcx.opt_parent(did).filter(|p| matches!(tcx.def_kind(*p), rustc_hir::def::DefKind::Impl { .. })) {
                f.push(("self_ty", jty(tcx, tcx.type_of(imp).instantiate_identity().skip_norm_wip())));
                f.push(("derived", tcx.is_automatically_derived(imp).to_string()));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    f.push(("trait", q(&path(tcx, tr.def_id))));
                    f.push(("trait_args", jargs(tcx, tr.args)));
                }
            }
            // generics and bounds
            let preds: Vec<_> = tcx.param_env(did).caller_bounds().into_iter().collect();
            f.push(("bounds", arr(preds.iter().map(|p| {
                if let Some(t) = p.as_trait_clause() {
                    let t = t.skip_binder();
                    obj(&[("b", q("trait")), ("self", jty(tcx, t.self_ty())), ("trait", q(&path(tcx, t.def_id()))), ("args", jargs(tcx, t.trait_ref.args))])
                } else if let Some(pr) = p.as_projection_clause() {
                    let pr = pr.skip_binder();
                    obj(&[
                        ("b", q("proj")),
                        ("self", jty(tcx, pr.self_ty())),
                        ("item", q(&path(tcx, pr.def_id()))),
                        ("ty", pr.term.as_type().map_or("null".into(), |t| jty(tcx, t))),
                    ])
                } else {
                    obj(&[("b", q("other"))])
                }
            }))));
            let mut g = vec![];
            let mut gen = Some(tcx.generics_of(did));
            while let Some(x) = gen {
                for p in x.own_params.iter() {
                    g.push(q(&format!("{}", p.name)));
                }
                gen = x.parent.map(|p| tcx.generics_of(p));
            }
            f.push(("generics", arr(g)));
            f.push(("gargs", jall(tcx, ty::GenericArgs::identity_for_item(tcx, did))));
        }
        fns.push(obj(&f));
    }
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        use rustc_hir::def::DefKind::*;
        if matches!(tcx.def_kind(d), Struct | Enum | Union) {
            let a = tcx.adt_def(d);
            let vs = arr(a.variants().iter().map(|v| {
                let disc = if a.is_enum() {
                    let i = a.variant_index_with_id(v.def_id);
                    format!("{:?}", a.discriminant_for_variant(tcx, i).val)
                } else {
                    "0".to_string()
                };
                obj(&[
                    ("name", q(v.name.as_str())),
                    ("disc", q(&disc)),
                    (
                        "fields",
                        arr(v.fields.iter().map(|f| {
                            obj(&[("name", q(f.name.as_str())), ("ty", jty(tcx, tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])
                        })),
                    ),
                ])
            }));
            adts.push(obj(&[
                ("path", q(&path(tcx, d))),
                ("kind", q(&format!("{:?}", tcx.def_kind(d)))),
                ("variants", vs),
                (
                    "params",
                    arr(tcx.generics_of(d).own_params.iter().filter_map(|p| match p.kind {
                        ty::GenericParamDefKind::Lifetime => None,
                        ty::GenericParamDefKind::Type { .. } => Some(q(p.name.as_str())),
                        ty::GenericParamDefKind::Const { .. } => Some(q("const")),
                    })),
                ),
            ]));
        }
    }
    obj(&[("fns", arr(fns)), ("adts", arr(adts))])
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(out) = std::env::var("GSX_OUT") {
            let s = ty::print::with_no_trimmed_paths!(dump(tcx));
            std::fs::write(out, s).unwrap();
        }
        Compilation::Continue
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    // the crate as a release build sees it: no debug assertions
    if let (Ok(out), Err(_)) = (std::env::var("GSX_OUT"), std::env::var("GSX_REL")) {
        let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1));
        if name.is_some_and(|n| n != "___") {
            let _ = std::process::Command::new(std::env::current_exe().unwrap())
                .args(&args[1..])
                .args(["-C", "debug-assertions=off", "-C", "overflow-checks=off"])
                .env("GSX_OUT", out + ".rel")
                .env("GSX_REL", "1")
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status();
        }
    }
    rustc_driver::compiler_entrypoint(&args[1..], &mut Cb);
}
#[allow(unused)]
fn _u(_: LocalDefId) {}
