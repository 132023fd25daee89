// Mechanical extraction of /repo's functions into the Verus dialect.
//
//   extract --src DIR --types TYPEMAP.tsv --contracts DIR --out GEN.rs --report REPORT.json
//           [--opaque FN]... [--role FN:ROLE=NAME]...
//
// Every function body is translated statement by statement; std and dependency calls become calls
// of contracted stand-ins (contracts/shim.rs), iterator chains and `for` loops become index loops,
// Option/Result combinators become matches.  Nothing is dropped except what DESIGN.md lists; a
// construct without a rule makes the function "opaque" (signature and contract only), reported.
mod contracts;
mod norm;
mod types;

use norm::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::Path;
use syn::visit::Visit;
use types::*;

pub type R<T> = Result<T, String>;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub items: Vec<syn::Item>,
    pub uses: HashMap<String, Vec<String>>, // local name -> full path
}

pub fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = quote::quote!(#a).to_string();
            t.contains("test") && !t.contains("not")
        }
    })
}

fn collect_uses(tree: &syn::UseTree, prefix: &mut Vec<String>, out: &mut HashMap<String, Vec<String>>) {
    match tree {
        syn::UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            collect_uses(&p.tree, prefix, out);
            prefix.pop();
        }
        syn::UseTree::Name(n) => {
            let mut p = prefix.clone();
            let name = n.ident.to_string();
            if name == "self" {
                if let Some(l) = p.last().cloned() {
                    out.insert(l, p);
                }
            } else {
                p.push(name.clone());
                out.insert(name, p);
            }
        }
        syn::UseTree::Rename(n) => {
            let mut p = prefix.clone();
            if n.ident != "self" {
                p.push(n.ident.to_string());
            }
            out.insert(n.rename.to_string(), p);
        }
        syn::UseTree::Glob(_) => {
            let mut p = prefix.clone();
            p.push("*".into());
            out.insert(format!("*{}", p.join("::")), p);
        }
        syn::UseTree::Group(g) => {
            for t in &g.items {
                collect_uses(t, prefix, out);
            }
        }
    }
}

fn load(src: &Path, path: Vec<String>, file: &Path, items: Vec<syn::Item>, out: &mut Vec<Module>) {
    let dir = if path.is_empty() {
        src.to_path_buf()
    } else {
        let stem = file.file_stem().unwrap().to_string_lossy().to_string();
        if stem == "mod" {
            file.parent().unwrap().to_path_buf()
        } else {
            file.parent().unwrap().join(stem)
        }
    };
    let mut uses = HashMap::new();
    let mut kept = vec![];
    let mut subs = vec![];
    for it in items {
        match it {
            syn::Item::Use(u) => {
                if !is_cfg_test(&u.attrs) {
                    collect_uses(&u.tree, &mut vec![], &mut uses);
                }
            }
            syn::Item::Mod(m) => {
                if !is_cfg_test(&m.attrs) {
                    subs.push(m);
                }
            }
            other => kept.push(other),
        }
    }
    let rel = format!(
        "src/{}",
        file.strip_prefix(src).unwrap().to_string_lossy()
    );
    out.push(Module { path: path.clone(), file: rel, items: kept, uses });
    for m in subs {
        let mut p = path.clone();
        p.push(m.ident.to_string());
        if let Some((_, its)) = m.content {
            // inline module: same file
            load(src, p, file, its, out);
        } else {
            let a = dir.join(format!("{}.rs", m.ident));
            let b = dir.join(m.ident.to_string()).join("mod.rs");
            let f = if a.exists() { a } else { b };
            match fs::read_to_string(&f).ok().and_then(|s| syn::parse_file(&s).ok()) {
                Some(ast) => load(src, p, &f, ast.items, out),
                None => eprintln!("cannot read module {:?}", f),
            }
        }
    }
}

/// the modules of a dependency; its root becomes the module NAME
fn load_dep(name: &str, tsv: &str, mods: &mut Vec<Module>) {
    let tsv = fs::read_to_string(tsv).expect("types of a dependency");
    let file = tsv
        .lines()
        .filter_map(|l| l.split('\t').nth(1))
        .find(|f| f.contains("/src/") && !f.contains("lazy_static"))
        .expect("a source file");
    let dir = Path::new(&file[..file.rfind("/src/").unwrap() + 4]).to_path_buf();
    let lib = dir.join("lib.rs");
    let ast = syn::parse_file(&fs::read_to_string(&lib).unwrap()).expect("parse lib.rs");
    let mut ms = vec![];
    load(&dir, vec![], &lib, ast.items, &mut ms);
    struct Root<'a>(&'a str);
    impl syn::visit_mut::VisitMut for Root<'_> {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            if p.segments.len() > 1 && p.segments[0].ident == "crate" {
                p.segments.insert(1, syn::PathSegment::from(syn::Ident::new(self.0, p.segments[0].ident.span())));
            }
            syn::visit_mut::visit_path_mut(self, p);
        }
    }
    for m in ms {
        let mut path = vec![name.to_string()];
        path.extend(m.path);
        let mut items = m.items;
        for i in &mut items {
            syn::visit_mut::VisitMut::visit_item_mut(&mut Root(name), i);
        }
        let uses = m
            .uses
            .into_iter()
            .map(|(k, mut v)| {
                if v[0] == "crate" {
                    v.insert(1, name.to_string());
                }
                (k, v)
            })
            .collect();
        let file = format!("{}/{}", dir.display(), m.file.strip_prefix("src/").unwrap());
        mods.push(Module { path, file, items, uses });
    }
}

/// the stand-in NAME of the shim is no longer assumed: its body becomes CALL, which has to satisfy its contract
fn bind(shim: &mut String, name: &str, call: &str) -> Option<()> {
    let (at, f) = match name.split_once("::") {
        Some((t, f)) => (shim.find(&format!("\nimpl {} {{", t))?, f),
        None => (0, name),
    };
    let i = at + shim[at..].find(&format!("pub fn {}(", f))?;
    const ATTR: &str = "#[verifier::external_body]";
    let a = shim[..i].rfind(ATTR)?;
    if !shim[a + ATTR.len()..i].trim().is_empty() {
        return None;
    }
    const BODY: &str = "{ unimplemented!() }";
    let j = i + shim[i..].find(BODY)?;
    if shim[i..j].contains("\npub ") {
        return None;
    }
    shim.replace_range(j..j + BODY.len(), &format!("{{ {} }} // @BOUND {}", call, name));
    shim.replace_range(a..a + ATTR.len(), "");
    Some(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| -> Option<String> {
        args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
    };
    let all = |n: &str| -> Vec<String> {
        args.iter()
            .enumerate()
            .filter(|(_, a)| *a == n)
            .filter_map(|(i, _)| args.get(i + 1).cloned())
            .collect()
    };
    let src = get("--src").unwrap_or_default();
    let src = Path::new(&src);
    // --dep NAME=TYPES.tsv: the sources of dependencies, as modules named after the crates
    let deps: Vec<(String, String)> =
        all("--dep").iter().filter_map(|d| d.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let tm = if deps.is_empty() {
        TypeMap::load(&[&get("--types").expect("--types")])
    } else {
        TypeMap::load(&deps.iter().map(|d| d.1.as_str()).collect::<Vec<_>>())
    };
    let cdir = get("--contracts").expect("--contracts");
    // the contracts of a dependency lie beside those of the crate
    let own = if deps.is_empty() { Path::new(&cdir).to_path_buf() } else { Path::new(&cdir).join("deps") };
    let cs = contracts::load(&own);
    let opaque: BTreeSet<String> = all("--opaque").into_iter().collect();
    let mut roles: HashMap<(String, String), String> = HashMap::new();
    for r in all("--role") {
        if let Some((f, rest)) = r.split_once(':').and_then(|_| {
            let i = r.rfind(':').unwrap();
            Some((r[..i].to_string(), r[i + 1..].to_string()))
        }) {
            if let Some((a, b)) = rest.split_once('=') {
                roles.insert((f, a.to_string()), b.to_string());
            }
        }
    }

    let mut mods = vec![];
    if deps.is_empty() {
        let lib = src.join("lib.rs");
        let ast = syn::parse_file(&fs::read_to_string(&lib).unwrap()).expect("parse lib.rs");
        load(src, vec![], &lib, ast.items, &mut mods);
    } else {
        mods.push(Module { path: vec![], file: String::new(), items: vec![], uses: HashMap::new() });
        for (name, tsv) in &deps {
            load_dep(name, tsv, &mut mods);
        }
    }

    // global knowledge
    let mut g = Global::new(tm, cs, opaque, roles);
    g.dep = !deps.is_empty();
    for m in &mods {
        g.mod_paths.insert(m.path.join("::"));
    }
    for m in &mods {
        let mp = m.path.join("::");
        g.uses.insert(mp.clone(), m.uses.clone());
        let mut al = ParenAlias { file: m.file.clone(), alias: HashMap::new() };
        for it in &m.items {
            al.visit_item(it);
        }
        g.tm.alias.extend(al.alias);
        for it in &m.items {
            g.note_item(&mp, &m.file, it);
        }
    }

    // emit, nested modules
    let mut by_parent: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, m) in mods.iter().enumerate() {
        if !m.path.is_empty() {
            by_parent.entry(m.path[..m.path.len() - 1].join("::")).or_default().push(i);
        }
    }
    let mut shim = fs::read_to_string(Path::new(&cdir).join("shim.rs")).expect("shim.rs");
    let spec = fs::read_to_string(own.join("spec.rs")).expect("spec.rs");
    if let Ok(b) = fs::read_to_string(own.join("bind.txt")) {
        for l in b.lines().filter(|l| !l.starts_with('#')) {
            if let Some((name, call)) = l.split_once(" = ") {
                bind(&mut shim, name.trim(), call.trim()).expect("a stand-in named in bind.txt");
            }
        }
    }
    let mut out = String::new();
    out.push_str("#![allow(unused)]\n#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals)]\n");
    out.push_str("#![feature(allocator_api)]\nuse vstd::prelude::*;\n");
    out.push_str("pub mod shim {\n");
    out.push_str(&shim);
    out.push_str("\n}\npub mod spec {\n");
    out.push_str(&spec);
    out.push_str("\n}\n");
    fn emit_mod(
        g: &mut Global,
        mods: &[Module],
        by: &BTreeMap<String, Vec<usize>>,
        i: usize,
        out: &mut String,
    ) {
        let m = &mods[i];
        let mp = m.path.join("::");
        if !m.path.is_empty() {
            out.push_str(&format!("pub mod {} {{\n", m.path.last().unwrap()));
        }
        out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::*;\n#[allow(unused_imports)] use crate::spec::*;\n");
        out.push_str(&g.emit_uses(m));
        let body = g.emit_items(m);
        if !body.trim().is_empty() {
            out.push_str("verus! {\nbroadcast use {crate::shim::group_shim, crate::spec::group_spec};\n");
            out.push_str(&body);
            out.push_str("}\n");
        }
        if let Some(ch) = by.get(&mp) {
            for c in ch {
                emit_mod(g, mods, by, *c, out);
            }
        }
        if !m.path.is_empty() {
            out.push_str("}\n");
        }
    }
    emit_mod(&mut g, &mods, &by_parent, 0, &mut out);
    out.push_str("fn main() {}\n");
    fs::write(get("--out").expect("--out"), out).unwrap();
    fs::write(get("--report").expect("--report"), g.report_json()).unwrap();
}

struct ParenAlias {
    file: String,
    alias: HashMap<(String, String), String>,
}
impl<'a> Visit<'a> for ParenAlias {
    fn visit_expr_paren(&mut self, p: &'a syn::ExprParen) {
        use syn::spanned::Spanned;
        let outer = span_key(p.span());
        let outer = self
            .alias
            .get(&(self.file.clone(), outer.clone()))
            .cloned()
            .unwrap_or(outer);
        self.alias.insert((self.file.clone(), span_key(p.expr.span())), outer);
        syn::visit::visit_expr_paren(self, p);
    }
}
