// Type oracle for the extractor: a rustc driver that compiles mvdparser as cargo tells it to and
// writes, for every expression and binding of the crate, its source span and its exact type, and,
// for every call, the function it resolves to.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::print::with_resolve_crate_name;
use rustc_middle::ty::{TyCtxt, TypeckResults};
use std::io::Write;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: &'tcx TypeckResults<'tcx>,
    out: Vec<String>,
}

impl<'tcx> V<'tcx> {
    fn emit(&mut self, kind: &str, span: rustc_span::Span, a: String, b: String) {
        let range = span
            .desugaring_kind()
            .map_or(false, |d| format!("{:?}", d).starts_with("Range"));
        if span.from_expansion() && !range {
            return;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(span.lo());
        let hi = sm.lookup_char_pos(span.hi());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        self.out.push(format!(
            "{}\t{}\t{}:{}-{}:{}\t{}\t{}",
            kind, f, lo.line, lo.col.0, hi.line, hi.col.0, a, b
        ));
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let Some(ty) = self.tr.expr_ty_opt(e) {
            let adj = self
                .tr
                .expr_ty_adjusted_opt(e)
                .map(|t| t.to_string())
                .unwrap_or_default();
            self.emit("ty", e.span, ty.to_string(), adj);
        }
        match e.kind {
            hir::ExprKind::MethodCall(seg, ..) => {
                if let Some(d) = self.tr.type_dependent_def_id(e.hir_id) {
                    let p = self.tcx.def_path_str(d);
                    self.emit("call", seg.ident.span, p, String::new());
                }
            }
            hir::ExprKind::Path(ref q) => {
                let r = self.tr.qpath_res(q, e.hir_id);
                if let Some(d) = r.opt_def_id() {
                    self.emit("path", e.span, self.tcx.def_path_str(d), String::new());
                }
            }
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_pat(&mut self, p: &'tcx hir::Pat<'tcx>) {
        if let hir::PatKind::Binding(..) = p.kind {
            if let Some(t) = self.tr.node_type_opt(p.hir_id) {
                self.emit("pat", p.span, t.to_string(), String::new());
            }
        }
        intravisit::walk_pat(self, p);
    }
}

struct CB;
impl rustc_driver::Callbacks for CB {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some((path, named)) = target() else {
            return rustc_driver::Compilation::Continue;
        };
        if named {
            // a dependency: its own items are printed with the name of the crate
            with_resolve_crate_name!(dump(tcx, &path));
        } else {
            dump(tcx, &path);
        }
        rustc_driver::Compilation::Continue
    }
}

/// where the types of the crate that is being compiled go, and whether it is a dependency
fn target() -> Option<(String, bool)> {
    if std::env::var("CARGO_PRIMARY_PACKAGE").is_ok() {
        return std::env::var("TYPEMAP_OUT").ok().map(|p| (p, false));
    }
    let krate = std::env::var("CARGO_CRATE_NAME").ok()?;
    let dir = std::env::var("TYPEMAP_DEPDIR").ok()?;
    let deps = std::env::var("TYPEMAP_DEPS").ok()?;
    deps.split(',')
        .any(|d| d == krate)
        .then(|| (format!("{}/{}.tsv", dir, krate), true))
}

fn dump(tcx: TyCtxt<'_>, path: &str) {
    let mut f = std::fs::File::create(path).unwrap();
    for id in tcx.hir_body_owners() {
        let tr = tcx.typeck(id);
        let body = tcx.hir_body_owned_by(id);
        let mut v = V {
            tcx,
            tr,
            out: vec![],
        };
        v.visit_body(body);
        for l in v.out {
            writeln!(f, "{}", l).unwrap();
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut CB);
}
