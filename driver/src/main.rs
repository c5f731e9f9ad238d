// symdriver: a rustc driver that regenerates, from the *current* source of the crate under test,
// the same program over symbolic scalars.  It uses the compiler's own name resolution and type
// checking, so what is rewritten is decided by types, not by how the source is spelled:
//   * every type path that resolves to the primitive f64 / i64     -> __sym::SymF / SymI
//   * every literal whose inferred type is f64 / i64               -> SymF::c(..) / SymI::c(..)
//   * every `as` cast from or to f64 / i64                         -> __sym::cast::<S, D>(..)
//   * every use of a const/static holding f64/i64 data             -> lifted copy
//   * literal/range patterns of type f64/i64 in match arms         -> binder + guard
//   * std HashMap / HashSet (nondeterministic iteration order)     -> __sym::HashMap / HashSet
//   * every function body is prefixed with an entry marker, and functions named in $SYM_HOOKS
//     with a call of the harness-controlled abstraction of that function.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use rustc_span::def_id::LocalDefId;
use rustc_span::{FileName, Span};
use std::collections::{BTreeMap, HashSet};

#[derive(Default)]
struct FileEdits {
    opens: Vec<(usize, usize, String)>,        // pos, seq, text
    closes: Vec<(usize, usize, String, usize)>, // pos, seq, text, delete_until
}

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: Option<&'tcx TypeckResults<'tcx>>,
    edits: BTreeMap<String, FileEdits>,
    seq: usize,
    hooks: HashSet<String>,
    hooked: Vec<String>,
    fns: Vec<String>,
    pid: usize,
    /// functions called in constant initialisers
    in_consts: HashSet<LocalDefId>,
}

struct Calls<'a, 'tcx> {
    tr: &'a TypeckResults<'tcx>,
    out: &'a mut HashSet<LocalDefId>,
}
impl<'a, 'tcx> Visitor<'tcx> for Calls<'a, 'tcx> {
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::Path(ref q) = e.kind {
            if let Res::Def(_, d) = self.tr.qpath_res(q, e.hir_id) {
                if let Some(l) = d.as_local() {
                    self.out.insert(l);
                }
            }
        }
        intravisit::walk_expr(self, e)
    }
}

impl<'tcx> V<'tcx> {
    fn loc(&self, sp: Span) -> Option<(String, usize, usize)> {
        if sp.from_expansion() || sp.is_dummy() {
            return None;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_byte_offset(sp.lo());
        let hi = sm.lookup_byte_offset(sp.hi());
        if let FileName::Real(ref r) = lo.sf.name {
            let p = r.local_path()?.to_string_lossy().to_string();
            if p.contains("/vh/api.rs") {
                return None;
            }
            Some((p, lo.pos.0 as usize, hi.pos.0 as usize))
        } else {
            None
        }
    }
    fn wrap(&mut self, sp: Span, pre: &str, post: &str) -> bool {
        if let Some((f, lo, hi)) = self.loc(sp) {
            self.seq += 1;
            let s = self.seq;
            let e = self.edits.entry(f).or_default();
            e.opens.push((lo, s, pre.to_string()));
            e.closes.push((hi, s, post.to_string(), hi));
            true
        } else {
            false
        }
    }
    fn insert_open(&mut self, file: String, pos: usize, t: String) {
        self.seq += 1;
        let s = self.seq;
        self.edits.entry(file).or_default().opens.push((pos, s, t));
    }
    fn replace(&mut self, sp: Span, text: &str) {
        if let Some((f, lo, hi)) = self.loc(sp) {
            self.replace_at(f, lo, hi, text);
        }
    }
    fn replace_at(&mut self, f: String, lo: usize, hi: usize, text: &str) {
        self.seq += 1;
        let s = self.seq;
        let e = self.edits.entry(f).or_default();
        e.closes.push((lo, s, text.to_string(), hi));
    }
    fn prim(&self, t: ty::Ty<'tcx>) -> Option<&'static str> {
        match t.kind() {
            ty::Float(ty::FloatTy::F64) => Some("F"),
            ty::Int(ty::IntTy::I64) => Some("I"),
            _ => None,
        }
    }
    fn symname(k: &str) -> &'static str {
        if k == "F" {
            "crate::__sym::SymF"
        } else {
            "crate::__sym::SymI"
        }
    }
    /// does the type consist of f64/i64 data behind arrays, tuples, references, slices only
    fn liftable(&self, t: ty::Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Float(ty::FloatTy::F64) | ty::Int(ty::IntTy::I64) => true,
            ty::Array(e, _) | ty::Slice(e) => self.liftable(*e),
            ty::Ref(_, e, _) => self.liftable(*e),
            ty::Tuple(es) => {
                es.len() <= 4 && es.iter().any(|e| self.liftable(e)) && es.iter().all(|e| self.liftable(e) || self.plain(e))
            }
            _ => false,
        }
    }
    fn plain(&self, t: ty::Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => true,
            ty::Ref(_, e, _) => matches!(e.kind(), ty::Str),
            _ => false,
        }
    }
    /// does the type hold f64/i64 data
    fn has_num(&self, t: ty::Ty<'tcx>, depth: usize) -> bool {
        if depth > 6 {
            return true;
        }
        match t.kind() {
            ty::Float(ty::FloatTy::F64) | ty::Int(ty::IntTy::I64) => true,
            ty::Array(e, _) | ty::Slice(e) | ty::Ref(_, e, _) => self.has_num(*e, depth + 1),
            ty::Tuple(es) => es.iter().any(|e| self.has_num(e, depth + 1)),
            ty::Adt(d, args) => {
                args.types().any(|a| self.has_num(a, depth + 1))
                    || (d.did().is_local()
                        && d.all_fields().any(|f| self.has_num(self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip(), depth + 1)))
            }
            ty::FnPtr(..) => true,
            _ => false,
        }
    }
    /// consts made of numbers keep their native definition (uses are lifted); others are rewritten
    /// like any other code
    fn keep_const(&mut self, did: LocalDefId, hty: &hir::Ty<'tcx>) -> bool {
        let t = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
        if self.liftable(t) {
            self.replace(hty.span, &format!("{}", t));
            true
        } else {
            !self.has_num(t, 0)
        }
    }
    fn tyname(&self, t: ty::Ty<'tcx>) -> String {
        match self.prim(t) {
            Some(k) => Self::symname(k).to_string(),
            None => format!("{}", t),
        }
    }
    fn lit_pat(&self, p: &hir::Pat<'tcx>) -> bool {
        let Some(tr) = self.tr else { return false };
        match p.kind {
            hir::PatKind::Expr(_) | hir::PatKind::Range(..) => {
                let t = tr.pat_ty(p).peel_refs();
                self.prim(t).is_some()
            }
            hir::PatKind::Or(ps) => ps.iter().all(|q| self.lit_pat(q)),
            _ => false,
        }
    }
    fn snippet(&self, sp: Span) -> String {
        self.tcx.sess.source_map().span_to_snippet(sp).unwrap_or_default()
    }
    fn pat_cond(&self, name: &str, p: &hir::Pat<'tcx>) -> String {
        match p.kind {
            hir::PatKind::Or(ps) => {
                let v: Vec<String> = ps.iter().map(|q| self.pat_cond(name, q)).collect();
                format!("({})", v.join(" || "))
            }
            hir::PatKind::Range(a, b, end) => {
                let mut v = vec![];
                if let Some(a) = a {
                    v.push(format!("crate::__sym::PatVal::pv(&{}).ge_lit({})", name, self.snippet(a.span)));
                }
                if let Some(b) = b {
                    let m = if matches!(end, hir::RangeEnd::Included) { "le_lit" } else { "lt_lit" };
                    v.push(format!("crate::__sym::PatVal::pv(&{}).{}({})", name, m, self.snippet(b.span)));
                }
                format!("({})", if v.is_empty() { "true".into() } else { v.join(" && ") })
            }
            _ => format!("crate::__sym::PatVal::pv(&{}).eq_lit({})", name, self.snippet(p.span)),
        }
    }
    fn collect_lits(&mut self, p: &hir::Pat<'tcx>, out: &mut Vec<String>) {
        if self.lit_pat(p) {
            if self.loc(p.span).is_some() {
                self.pid += 1;
                let n = format!("__p{}", self.pid);
                out.push(self.pat_cond(&n, p));
                self.replace(p.span, &n);
            }
            return;
        }
        match p.kind {
            hir::PatKind::Binding(_, _, _, Some(s)) => self.collect_lits(s, out),
            hir::PatKind::Struct(_, fs, _) => {
                for f in fs {
                    self.collect_lits(f.pat, out)
                }
            }
            hir::PatKind::TupleStruct(_, ps, _) | hir::PatKind::Tuple(ps, _) => {
                for q in ps {
                    self.collect_lits(q, out)
                }
            }
            hir::PatKind::Ref(q, _, _) => self.collect_lits(q, out),
            hir::PatKind::Slice(a, m, b) => {
                for q in a.iter().chain(m.into_iter()).chain(b.iter()) {
                    self.collect_lits(q, out)
                }
            }
            _ => {}
        }
    }
    fn do_path_ty(&mut self, path: &hir::Path<'tcx>) {
        match path.res {
            Res::PrimTy(hir::PrimTy::Float(rustc_ast::FloatTy::F64)) => self.replace(path.span, Self::symname("F")),
            Res::PrimTy(hir::PrimTy::Int(rustc_ast::IntTy::I64)) => self.replace(path.span, Self::symname("I")),
            Res::Def(_, did) => self.std_map(path, did),
            _ => {}
        }
    }
    fn std_map(&mut self, path: &hir::Path<'tcx>, did: rustc_span::def_id::DefId) {
        if did.is_local() {
            return;
        }
        let n = self.tcx.def_path_str(did);
        let rep = match n.as_str() {
            "std::collections::HashMap" => "crate::__sym::HashMap",
            "std::collections::HashSet" => "crate::__sym::HashSet",
            "std::collections::hash_map::Entry" => "crate::__sym::Entry",
            _ => return,
        };
        let last = path.segments.last().unwrap();
        if let (Some((f, lo, _)), Some((_, _, hi))) = (self.loc(path.span), self.loc(last.ident.span)) {
            self.replace_at(f, lo, hi, rep);
        }
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        let hty = match i.kind {
            hir::ItemKind::Const(_, _, t, _) => Some(t),
            hir::ItemKind::Static(_, _, t, _) => Some(t),
            _ => None,
        };
        if let Some(t) = hty {
            if self.keep_const(i.owner_id.def_id, t) {
                return;
            }
        }
        intravisit::walk_item(self, i)
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        if let hir::ImplItemKind::Const(t, _) = i.kind {
            if self.keep_const(i.owner_id.def_id, t) {
                return;
            }
        }
        intravisit::walk_impl_item(self, i)
    }
    fn visit_trait_item(&mut self, i: &'tcx hir::TraitItem<'tcx>) {
        if let hir::TraitItemKind::Const(..) = i.kind {
            return;
        }
        intravisit::walk_trait_item(self, i)
    }
    fn visit_anon_const(&mut self, _c: &'tcx hir::AnonConst) {}
    fn visit_inline_const(&mut self, _c: &'tcx hir::ConstBlock) {}
    fn visit_body(&mut self, b: &hir::Body<'tcx>) {
        let owner = self.tcx.hir_body_owner_def_id(b.id());
        let old = self.tr;
        self.tr = Some(self.tcx.typeck(owner));
        intravisit::walk_body(self, b);
        self.tr = old;
    }
    fn visit_fn(
        &mut self,
        fk: intravisit::FnKind<'tcx>,
        fd: &'tcx hir::FnDecl<'tcx>,
        b: hir::BodyId,
        _sp: Span,
        id: LocalDefId,
    ) {
        let closure = matches!(fk, intravisit::FnKind::Closure);
        let konst = !closure && matches!(self.tcx.hir_body_const_context(id), Some(hir::ConstContext::ConstFn));
        if konst && !self.in_consts.contains(&id) {
            let sig = self.tcx.def_span(id);
            if let Some((f, lo, _)) = self.loc(sig) {
                let t = self.snippet(sig);
                if let Some(k) = t.find("const ") {
                    if t[k..].find("fn ").is_some_and(|m| m < 16) {
                        self.replace_at(f, lo + k, lo + k + 6, "");
                    }
                }
            }
        }
        if !closure && !(konst && self.in_consts.contains(&id)) {
            let body = self.tcx.hir_body(b);
            let path = self.tcx.def_path_str(id.to_def_id());
            if let hir::ExprKind::Block(blk, _) = body.value.kind {
                if let Some((f, lo, _)) = self.loc(blk.span) {
                    if self.snippet(blk.span).starts_with('{') && !path.contains("vh::") {
                        let mut t = format!(" crate::__sym::enter({:?}); ", path);
                        // <Type as Trait>::method goes by Type::method
                        let key = match (path.strip_prefix('<'), path.rfind(">::")) {
                            (Some(p), Some(k)) => format!("{}{}", p.split(" as ").next().unwrap(), &path[k + 1..]),
                            _ => path.clone(),
                        };
                        if self.hooks.contains(&key) {
                            let mut args = vec![];
                            for p in body.params {
                                if let hir::PatKind::Binding(_, _, id, None) = p.pat.kind {
                                    args.push(id.name.to_string());
                                } else {
                                    args.push("()".into());
                                }
                            }
                            let h = key.replace("::", "__");
                            let call: Vec<String> = args.iter().map(|a| format!("&{}", a)).collect();
                            t.push_str(&format!(
                                "if let Some(__r) = crate::__sym_hooks::{}({}) {{ return __r; }} ",
                                h,
                                call.join(", ")
                            ));
                            self.hooked.push(path.clone());
                        }
                        self.insert_open(f, lo + 1, t);
                    }
                }
            }
            self.fns.push(path);
        }
        intravisit::walk_fn(self, fk, fd, b, id)
    }
    fn visit_ty(&mut self, t: &'tcx hir::Ty<'tcx, hir::AmbigArg>) {
        if let hir::TyKind::Path(hir::QPath::Resolved(None, path)) = t.kind {
            self.do_path_ty(path);
        }
        intravisit::walk_ty(self, t)
    }
    fn visit_arm(&mut self, a: &'tcx hir::Arm<'tcx>) {
        let mut conds = vec![];
        self.collect_lits(a.pat, &mut conds);
        if !conds.is_empty() {
            let c = conds.join(" && ");
            match a.guard {
                Some(g) => {
                    self.wrap(g.span, &format!("({}) && (", c), ")");
                }
                None => {
                    if let Some((f, _, hi)) = self.loc(a.pat.span) {
                        self.insert_open(f, hi, format!(" if {} ", c));
                    }
                }
            }
            if let Some(g) = a.guard {
                self.visit_expr(g);
            }
            self.visit_expr(a.body);
            return;
        }
        intravisit::walk_arm(self, a)
    }
    fn visit_expr(&mut self, ex: &'tcx hir::Expr<'tcx>) {
        let Some(tr) = self.tr else { return };
        match ex.kind {
            hir::ExprKind::Unary(hir::UnOp::Neg, inner) if matches!(inner.kind, hir::ExprKind::Lit(_)) && self.prim(tr.expr_ty(ex)).is_some() => {
                let k = self.prim(tr.expr_ty(ex)).unwrap();
                let s = format!("{}::c(", Self::symname(k));
                self.wrap(ex.span, &s, ")");
                return;
            }
            hir::ExprKind::Lit(_) => {
                if let Some(t) = tr.expr_ty_opt(ex) {
                    if let Some(k) = self.prim(t) {
                        let s = format!("{}::c(", Self::symname(k));
                        self.wrap(ex.span, &s, ")");
                    }
                }
                return;
            }
            hir::ExprKind::Cast(op, _t) => {
                let s = tr.expr_ty(op);
                let d = tr.expr_ty(ex);
                if self.prim(s).is_some() || self.prim(d).is_some() {
                    let pre = format!("crate::__sym::cast::<{}, {}>(", self.tyname(s), self.tyname(d));
                    if let (Some((f, lo, hi)), Some((_, olo, ohi))) = (self.loc(ex.span), self.loc(op.span)) {
                        // parenthesised casts: ex.span includes the parens, the operand starts after them
                        let src = self.snippet(ex.span);
                        let parens = olo - lo;
                        let lead = &src[..parens];
                        let nclose = lead.chars().filter(|c| *c == '(').count();
                        // walk back over the closing parens of the expression
                        let mut end = hi;
                        let bytes = src.as_bytes();
                        let mut n = nclose;
                        let mut i = src.len();
                        while n > 0 && i > 0 {
                            i -= 1;
                            if bytes[i] == b')' {
                                n -= 1;
                            }
                            end = lo + i;
                        }
                        self.insert_open(f.clone(), olo, pre);
                        let e_seq = self.seq;
                        self.edits.entry(f).or_default().closes.push((ohi, e_seq, ")".into(), end));
                        self.visit_expr(op);
                        return;
                    }
                }
            }
            hir::ExprKind::Path(ref qp) => {
                let res = tr.qpath_res(qp, ex.hir_id);
                if let Res::Def(DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }, did) = res {
                    let t = tr.expr_ty(ex);
                    let prim_assoc = !did.is_local() && matches!(res, Res::Def(DefKind::AssocConst { .. }, _));
                    if !prim_assoc {
                        if let Some(k) = self.prim(t) {
                            let s = format!("{}::c(", Self::symname(k));
                            self.wrap(ex.span, &s, ")");
                            return;
                        }
                        if self.liftable(t) {
                            self.wrap(ex.span, "(*crate::__sym::lift(&", "))");
                            return;
                        }
                    }
                }
                if let hir::QPath::Resolved(_, p) = qp {
                    if let Res::Def(_, did) = p.res {
                        self.std_map(p, did);
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_expr(self, ex)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = std::env::var("SYM_OUT").expect("SYM_OUT");
        let hooks = std::env::var("SYM_HOOKS").unwrap_or_default();
        let mut v = V {
            tcx,
            tr: None,
            edits: Default::default(),
            seq: 0,
            hooks: hooks.split_whitespace().map(|s| s.to_string()).collect(),
            hooked: vec![],
            fns: vec![],
            pid: 0,
            in_consts: HashSet::new(),
        };
        for o in tcx.hir_body_owners() {
            let konst = match tcx.hir_body_const_context(o) {
                Some(hir::ConstContext::ConstFn) | None => false,
                _ => true,
            };
            // a constant function that other constant code needs stays one
            if konst || matches!(tcx.hir_body_const_context(o), Some(hir::ConstContext::ConstFn)) {
                let tr = tcx.typeck(o);
                let mut out = HashSet::new();
                Calls { tr, out: &mut out }.visit_body(tcx.hir_body_owned_by(o));
                if konst {
                    v.in_consts.extend(out);
                }
            }
        }
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        let root = std::env::var("CARGO_MANIFEST_DIR").unwrap();
        let mut n = 0;
        for (f, e) in v.edits.iter_mut() {
            let abs = if f.starts_with('/') { f.clone() } else { format!("{}/{}", root, f) };
            let src = std::fs::read_to_string(&abs).unwrap();
            let rel = abs.strip_prefix(&format!("{}/", root)).unwrap_or(&abs).to_string();
            // events: closes before opens at the same position; closes by descending seq, opens by ascending
            let mut ev: Vec<(usize, u8, i64, String, usize)> = vec![];
            for (p, s, t) in e.opens.drain(..) {
                ev.push((p, 1, s as i64, t, p));
            }
            for (p, s, t, d) in e.closes.drain(..) {
                // a replacement starts at its lo: it must come after opens at the same position
                let cls = if d > p && !t.starts_with(')') { 2 } else { 0 };
                ev.push((p, cls, if cls == 0 { -(s as i64) } else { s as i64 }, t, d));
            }
            ev.sort();
            let mut o = String::new();
            let mut at = 0usize;
            for (p, _, _, t, d) in ev {
                if p < at {
                    if p != d || !t.is_empty() {
                        eprintln!("symdriver: overlapping edit in {} at {} (text {:?})", rel, p, t);
                    }
                    continue;
                }
                o.push_str(&src[at..p]);
                o.push_str(&t);
                at = d;
                n += 1;
            }
            o.push_str(&src[at..]);
            let dst = format!("{}/{}", out, rel);
            std::fs::create_dir_all(std::path::Path::new(&dst).parent().unwrap()).unwrap();
            std::fs::write(&dst, o).unwrap();
        }
        std::fs::write(
            format!("{}/SYM_REPORT.txt", out),
            format!("edits {}\nhooked {}\nfns {}\n", n, v.hooked.join(" "), v.fns.join(" ")),
        )
        .unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.iter().any(|a| a.starts_with("src/lib.rs"));
    if !is_target {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
