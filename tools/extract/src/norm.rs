use crate::contracts::{Clause, Contract};
use crate::types::*;
use crate::{Module, R};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct FnReport {
    pub name: String,
    pub file: String,
    pub line: usize,
    pub status: String,
    pub reason: String,
    pub contracted: bool,
    pub loops: usize,
    pub locals: Vec<(String, String)>,
    pub calls: Vec<String>,
    pub ambiguous: Vec<(String, Vec<String>)>,
    pub text: String,
}

pub struct Global {
    pub tm: TypeMap,
    pub cs: BTreeMap<String, Contract>,
    pub opaque: BTreeSet<String>,
    pub roles: HashMap<(String, String), String>,
    pub uses: HashMap<String, HashMap<String, Vec<String>>>,
    pub mod_paths: HashSet<String>,
    pub values: BTreeSet<String>,
    pub types: HashSet<String>,
    pub derives: HashMap<String, Vec<String>>,
    pub dep: bool,
    pub fields: HashMap<String, Vec<(String, String)>>, // struct -> emitted field types
    pub fns: HashMap<String, (String, String, syn::ItemFn)>,
    pub reports: Vec<FnReport>,
    pub dropped: Vec<String>,
    pub used_contracts: BTreeSet<String>,
}

/// external types and the stand-ins they are mapped to
fn ext_type(p: &str) -> Option<&'static str> {
    Some(match p {
        "std::collections::HashMap" => "crate::shim::HashMap",
        "std::collections::BTreeMap" => "crate::shim::BTreeMap",
        "std::io::Cursor" => "crate::shim::Cursor",
        "std::io::Read" => "crate::shim::Read",
        "std::io::Error" => "crate::shim::IoError",
        "anyhow::Error" => "crate::shim::AError",
        "std::ops::Range" | "core::ops::Range" => "core::ops::Range",
        "std::time::Duration" | "core::time::Duration" => "crate::shim::Duration",
        "std::cmp::Ordering" | "core::cmp::Ordering" => "crate::shim::Ordering",
        "chrono::DateTime" => "crate::shim::DateTime",
        "chrono::Utc" => "crate::shim::Utc",
        "chrono::FixedOffset" => "crate::shim::FixedOffset",
        "chrono::LocalResult" | "chrono::offset::LocalResult" => "crate::shim::LocalResult",
        "ktxstats::v3::KtxstatsV3" => "crate::shim::KtxstatsV3",
        "ktxstats::v3::Player" => "crate::shim::KPlayer",
        "quake_clientinfo::Clientinfo" => "crate::shim::Clientinfo",
        "quake_serverinfo::Settings" => "crate::shim::Settings",
        "std::vec::Vec" => "Vec",
        "std::string::String" => "String",
        "std::option::Option" => "Option",
        "std::result::Result" => "Result",
        _ => return None,
    })
}

/// external functions (by resolved definition path) and their stand-ins
fn ext_fn(p: &str) -> Option<&'static str> {
    Some(match p {
        "quake_text::bytestr::to_unicode" => "v_to_unicode",
        "quake_text::bytestr::to_utf8" => "v_to_utf8",
        "quake_text::bytestr::to_ascii" => "v_to_ascii",
        "quake_text::unicode::sort" => "v_unicode_sort",
        "std::str::from_utf8" | "core::str::from_utf8" | "core::str::converts::from_utf8" => "v_from_utf8",
        "std::string::String::from_utf8" => "v_string_from_utf8",
        "std::time::Duration::from_millis" | "core::time::Duration::from_millis" => "v_duration_from_millis",
        "std::time::Duration::from_secs" | "core::time::Duration::from_secs" => "v_duration_from_secs",
        "std::time::Duration::try_from_secs_f64" | "core::time::Duration::try_from_secs_f64" => {
            "v_duration_try_from_secs_f64"
        }
        "chrono::DateTime::parse_from_str" => "v_datetime_parse_from_str",
        "chrono::DateTime::from_timestamp" => "v_datetime_from_timestamp",
        "std::mem::take" | "core::mem::take" => "v_mem_take",
        _ => return None,
    })
}

fn is_int(t: &str) -> bool {
    let (n, s) = deref(t);
    n == 0 && kind(&s) == K::Int
}

fn simple(code: &str) -> bool {
    !code.is_empty()
        && code
            .chars()
            .all(|c| c.is_alphanumeric() || c == '_' || c == '.' || c == ':')
}

pub fn par(code: &str) -> String {
    if simple(code) || (code.starts_with('(') && matching(code)) {
        code.to_string()
    } else {
        format!("({})", code)
    }
}

fn matching(code: &str) -> bool {
    let mut d = 0;
    let n = code.chars().count();
    for (i, c) in code.chars().enumerate() {
        match c {
            '(' => d += 1,
            ')' => {
                d -= 1;
                if d == 0 && i + 1 != n {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}

/// the operators on bool that evaluate both sides
fn bool_op(op: &str) -> Option<&'static str> {
    match op {
        "&" => Some("v_bool_and"),
        "|" => Some("v_bool_or"),
        "^" => Some("v_bool_xor"),
        _ => None,
    }
}

impl Global {
    pub fn new(
        tm: TypeMap,
        cs: BTreeMap<String, Contract>,
        opaque: BTreeSet<String>,
        roles: HashMap<(String, String), String>,
    ) -> Self {
        Global {
            tm,
            cs,
            opaque,
            roles,
            uses: HashMap::new(),
            mod_paths: HashSet::new(),
            values: BTreeSet::new(),
            types: HashSet::new(),
            derives: HashMap::new(),
            dep: false,
            fields: HashMap::new(),
            fns: HashMap::new(),
            reports: vec![],
            dropped: vec![],
            used_contracts: BTreeSet::new(),
        }
    }

    /// trait functions of dependencies get names of their own: the types are those of the stand-ins
    fn pre(&self) -> &'static str {
        if self.dep { "d" } else { "v" }
    }

    fn join(mp: &str, n: &str) -> String {
        if mp.is_empty() {
            n.to_string()
        } else {
            format!("{}::{}", mp, n)
        }
    }

    pub fn note_item(&mut self, mp: &str, file: &str, it: &syn::Item) {
        let der = |attrs: &[syn::Attribute]| -> Vec<String> {
            let mut o = vec![];
            for a in attrs {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|m| {
                        o.push(m.path.segments.last().unwrap().ident.to_string());
                        Ok(())
                    });
                }
            }
            o
        };
        match it {
            syn::Item::Struct(s) => {
                let p = Self::join(mp, &s.ident.to_string());
                self.derives.insert(p.clone(), der(&s.attrs));
                self.types.insert(p);
            }
            syn::Item::Enum(s) => {
                let p = Self::join(mp, &s.ident.to_string());
                self.derives.insert(p.clone(), der(&s.attrs));
                self.types.insert(p);
            }
            syn::Item::Trait(s) => {
                self.types.insert(Self::join(mp, &s.ident.to_string()));
            }
            syn::Item::Type(s) => {
                self.types.insert(Self::join(mp, &s.ident.to_string()));
            }
            syn::Item::Fn(f) => {
                let p = Self::join(mp, &f.sig.ident.to_string());
                self.fns.insert(p, (mp.to_string(), file.to_string(), f.clone()));
            }
            syn::Item::Const(c) => {
                self.values.insert(c.ident.to_string());
            }
            syn::Item::Static(c) => {
                self.values.insert(c.ident.to_string());
            }
            _ => {}
        }
    }

    /// resolve a name as seen from module mp to a full path; Some((path, is_local))
    fn resolve(&self, mp: &str, segs: &[String]) -> (Vec<String>, bool) {
        let mut cur: Vec<String> = segs.to_vec();
        let mut mp = mp.to_string();
        for _ in 0..6 {
            let first = cur[0].clone();
            if first == "crate" {
                let p = cur[1..].to_vec();
                // re-exports
                if self.types.contains(&p.join("::")) || self.fns.contains_key(&p.join("::")) {
                    return (p, true);
                }
                if p.len() >= 1 {
                    // walk: longest module prefix, then its uses
                    for cut in (0..p.len()).rev() {
                        let m = p[..cut].join("::");
                        if self.mod_paths.contains(&m) {
                            if let Some(u) = self.uses.get(&m).and_then(|u| u.get(&p[cut])) {
                                if u.join("::") != cur.join("::") {
                                    let mut n = u.clone();
                                    n.extend(p[cut + 1..].iter().cloned());
                                    cur = n;
                                    mp = m;
                                    break;
                                }
                            }
                        }
                        if cut == 0 {
                            return (p, true);
                        }
                    }
                    if cur[0] == "crate" && cur[1..] == p[..] {
                        return (p, true);
                    }
                    continue;
                }
                return (p, true);
            }
            if first == "self" {
                let mut n = vec!["crate".to_string()];
                n.extend(mp.split("::").filter(|x| !x.is_empty()).map(String::from));
                n.extend(cur[1..].iter().cloned());
                cur = n;
                continue;
            }
            if first == "super" {
                let mut ps: Vec<String> = mp.split("::").filter(|x| !x.is_empty()).map(String::from).collect();
                ps.pop();
                let mut n = vec!["crate".to_string()];
                n.extend(ps.iter().cloned());
                n.extend(cur[1..].iter().cloned());
                mp = ps.join("::");
                cur = n;
                continue;
            }
            let here = Self::join(&mp, &first);
            if self.types.contains(&here) || self.mod_paths.contains(&here) || self.fns.contains_key(&here) {
                let mut n = vec!["crate".to_string()];
                n.extend(here.split("::").map(String::from));
                n.extend(cur[1..].iter().cloned());
                cur = n;
                continue;
            }
            if let Some(u) = self.uses.get(&mp).and_then(|u| u.get(&first)) {
                if u != &cur {
                    let mut n = u.clone();
                    n.extend(cur[1..].iter().cloned());
                    cur = n;
                    // an import path is relative to the crate root or an extern crate
                    if cur[0] != "crate" && cur[0] != "self" && cur[0] != "super" {
                        let loc = self.mod_paths.contains(&cur[0]) && mp.is_empty();
                        if loc {
                            cur.insert(0, "crate".into());
                            continue;
                        }
                        return (cur, false);
                    }
                    continue;
                }
            }
            return (cur, false);
        }
        (cur, false)
    }

    pub fn emit_uses(&self, m: &Module) -> String {
        let mp = m.path.join("::");
        let mut o = String::new();
        let mut names: Vec<_> = m.uses.iter().collect();
        names.sort();
        for (n, p) in names {
            let local_root = p[0] == "crate"
                || p[0] == "self"
                || p[0] == "super"
                || (mp.is_empty() && self.mod_paths.contains(&p[0]));
            if !local_root {
                continue;
            }
            if n.starts_with('*') {
                if p[0] == "super" {
                    o.push_str("#[allow(unused_imports)] pub use super::*;\n");
                }
                continue;
            }
            let (full, local) = self.resolve(&mp, p);
            if !local {
                continue;
            }
            let f = full.join("::");
            if self.types.contains(&f) || self.fns.contains_key(&f) || self.mod_paths.contains(&f) {
                if f == Self::join(&mp, n) {
                    continue;
                }
                o.push_str(&format!("#[allow(unused_imports)] pub use crate::{} as {};\n", f, n));
            } else if (p[0] == "crate" || p[0] == "super" || p[0] == "self") && self.values.contains(p.last().unwrap()) {
                // constants
                o.push_str(&format!("#[allow(unused_imports)] pub use {} as {};\n", p.join("::"), n));
            }
        }
        o
    }

    /// a type string printed by rustc -> the emitted type
    pub fn render_ty(&self, t: &str) -> R<String> {
        let t = t.trim();
        if let Some(r) = t.strip_prefix("&mut ") {
            return Ok(format!("&mut {}", self.render_ty(r)?));
        }
        if let Some(r) = t.strip_prefix('&') {
            return Ok(format!("&{}", self.render_ty(r)?));
        }
        if t.starts_with('[') {
            let a = targs(t);
            return Ok(if a.len() == 2 {
                format!("[{}; {}]", self.render_ty(&a[0])?, a[1])
            } else {
                format!("[{}]", self.render_ty(&a[0])?)
            });
        }
        if t.starts_with('(') {
            let a: R<Vec<String>> = targs(t).iter().map(|x| self.render_ty(x)).collect();
            let a = a?;
            return Ok(if a.len() == 1 { format!("({},)", a[0]) } else { format!("({})", a.join(", ")) });
        }
        let head = t.split('<').next().unwrap();
        let args: R<Vec<String>> = targs(t).iter().map(|x| self.render_ty(x)).collect();
        let args = args?;
        let h = if !head.contains("::") && matches!(kind(head), K::Int | K::Bool | K::Char | K::Str) {
            head.to_string()
        } else if self.types.contains(head) {
            format!("crate::{}", head)
        } else if let Some(e) = ext_type(head) {
            e.to_string()
        } else {
            return Err(format!("type {}", t));
        };
        Ok(if args.is_empty() { h } else { format!("{}<{}>", h, args.join(", ")) })
    }

    /// a type as written in the source -> the emitted type
    fn ty(&self, mp: &str, t: &syn::Type, err: &Option<syn::Type>, in_const: bool) -> R<String> {
        match t {
            syn::Type::Reference(r) => {
                let m = if r.mutability.is_some() { "mut " } else { "" };
                let l = match &r.lifetime {
                    Some(l) => format!("'{} ", l.ident),
                    None if in_const => "'static ".to_string(),
                    None => String::new(),
                };
                Ok(format!("&{}{}{}", l, m, self.ty(mp, &r.elem, err, in_const)?))
            }
            syn::Type::Slice(s) => Ok(format!("[{}]", self.ty(mp, &s.elem, err, in_const)?)),
            syn::Type::Array(a) => {
                let len = &a.len;
                Ok(format!("[{}; {}]", self.ty(mp, &a.elem, err, in_const)?, quote::quote!(#len)))
            }
            syn::Type::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.ty(mp, e, err, in_const)).collect();
                let v = v?;
                Ok(if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) })
            }
            syn::Type::Paren(p) => self.ty(mp, &p.elem, err, in_const),
            syn::Type::Never(_) => Err("type !".into()),
            syn::Type::Path(p) if p.qself.is_none() => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let mut args = vec![];
                for s in &p.path.segments {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for x in &a.args {
                            match x {
                                syn::GenericArgument::Type(t) => args.push(self.ty(mp, t, err, in_const)?),
                                syn::GenericArgument::Const(c) => args.push(quote::quote!(#c).to_string()),
                                syn::GenericArgument::Lifetime(l) => args.push(l.to_string()),
                                _ => return Err("type argument".into()),
                            }
                        }
                    }
                }
                if segs.len() == 2 && segs[0] == "Self" && segs[1] == "Error" {
                    let e = err.clone().ok_or("Self::Error")?;
                    return self.ty(mp, &e, &None, in_const);
                }
                if segs.len() == 1 {
                    match segs[0].as_str() {
                        "Self" | "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64"
                        | "i128" | "isize" | "bool" | "char" | "str" => return Ok(segs[0].clone()),
                        "f64" | "f32" => return Ok(segs[0].clone()),
                        _ => {}
                    }
                }
                let (full, local) = self.resolve(mp, &segs);
                let f = full.join("::");
                let with = |h: &str, args: &Vec<String>| {
                    if args.is_empty() {
                        h.to_string()
                    } else {
                        format!("{}<{}>", h, args.join(", "))
                    }
                };
                if local {
                    return Ok(with(&format!("crate::{}", f), &args));
                }
                match f.as_str() {
                    "anyhow::Result" => {
                        return Ok(if args.len() == 1 {
                            format!("Result<{}, crate::shim::AError>", args[0])
                        } else {
                            with("Result", &args)
                        })
                    }
                    "std::io::Result" => return Ok(format!("Result<{}, crate::shim::IoError>", args[0])),
                    "Vec" | "String" | "Option" | "Result" | "Box" => return Ok(with(&f, &args)),
                    _ => {}
                }
                if let Some(e) = ext_type(&f) {
                    return Ok(with(e, &args));
                }
                // generic parameters of the function or trait
                if segs.len() == 1 && segs[0].len() <= 2 {
                    return Ok(segs[0].clone());
                }
                Err(format!("type {}", f))
            }
            _ => Err(format!("type {}", quote::quote!(#t))),
        }
    }

    fn path_code(&self, mp: &str, p: &syn::Path) -> R<String> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 || segs[0] == "Self" {
            let s = segs.join("::");
            if segs.len() == 1 {
                let (full, local) = self.resolve(mp, &segs);
                if local && full.len() > 1 {
                    return Ok(format!("crate::{}", full.join("::")));
                }
                if !local && full.len() > 1 {
                    if let Some(e) = ext_type(&full.join("::")) {
                        return Ok(e.to_string());
                    }
                }
            }
            return Ok(s);
        }
        let (full, local) = self.resolve(mp, &segs);
        if local {
            return Ok(format!("crate::{}", full.join("::")));
        }
        for cut in (1..=full.len()).rev() {
            if let Some(e) = ext_type(&full[..cut].join("::")) {
                let mut v = vec![e.to_string()];
                v.extend(full[cut..].iter().cloned());
                return Ok(v.join("::"));
            }
        }
        if full[0] == "Option" || full[0] == "Result" {
            return Ok(full.join("::"));
        }
        Err(format!("path {}", full.join("::")))
    }

    pub fn emit_items(&mut self, m: &Module) -> String {
        let mp = m.path.join("::");
        let mut o = String::new();
        for it in &m.items {
            match it {
                syn::Item::Struct(s) => o.push_str(&self.emit_struct(&mp, s)),
                syn::Item::Enum(e) => o.push_str(&self.emit_enum(&mp, e)),
                syn::Item::Const(c) => {
                    o.push_str(&self.emit_const(&mp, &m.file, &c.ident.to_string(), &c.ty, &c.expr))
                }
                syn::Item::Static(c) => {
                    o.push_str(&self.emit_const(&mp, &m.file, &c.ident.to_string(), &c.ty, &c.expr))
                }
                syn::Item::Fn(f) => {
                    let name = f.sig.ident.to_string();
                    let key = Self::join(&mp, &name);
                    o.push_str(&self.emit_fn(
                        &mp, &m.file, &key, &name, &f.sig, Some(&f.block), &None, None, false,
                    ));
                }
                syn::Item::Impl(i) => o.push_str(&self.emit_impl(&mp, &m.file, i)),
                syn::Item::Trait(t) => {
                    let name = t.ident.to_string();
                    let key = Self::join(&mp, &name);
                    let sup: Vec<String> = t
                        .supertraits
                        .iter()
                        .filter_map(|b| match b {
                            syn::TypeParamBound::Trait(tb) => self.path_code(&mp, &tb.path).ok(),
                            _ => None,
                        })
                        .collect();
                    o.push_str(&format!(
                        "pub trait {}{} {{\n",
                        name,
                        if sup.is_empty() { String::new() } else { format!(": {}", sup.join(" + ")) }
                    ));
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            let n = f.sig.ident.to_string();
                            let k = format!("{}::{}", key, n);
                            o.push_str(&self.emit_fn(
                                &mp, &m.file, &k, &n, &f.sig, f.default.as_ref(), &None, None, true,
                            ));
                        }
                    }
                    o.push_str("}\n");
                }
                syn::Item::Type(_) | syn::Item::ExternCrate(_) => {}
                other => self.dropped.push(format!("{}: {}", mp, quote::quote!(#other).to_string().chars().take(60).collect::<String>())),
            }
        }
        o
    }

    fn default_of(&self, ty: &str) -> Option<(String, String)> {
        // (exec expression, spec condition on {x})
        let t = ty.trim();
        Some(match t {
            "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" => {
                ("0".into(), format!("{{x}} == 0{}", t))
            }
            "bool" => ("false".into(), "!{x}".into()),
            "crate::shim::Duration" | "Duration" => ("v_duration_zero()".into(), "{x}.nanos == 0".into()),
            "String" => ("v_string_new()".into(), "{x}@ == Seq::<char>::empty()".into()),
            _ if t.starts_with("Vec<") => ("Vec::new()".into(), "{x}@.len() == 0".into()),
            _ if t.starts_with("Option<") => ("None".into(), "{x} is None".into()),
            _ if t.starts_with('[') => {
                let a = targs(t);
                if a.len() != 2 {
                    return None;
                }
                let n: usize = a[1].parse().ok()?;
                let (e, s) = self.default_of(&a[0])?;
                let mut conds = vec![];
                for i in 0..n {
                    conds.push(s.replace("{x}", &format!("{{x}}@[{}]", i)));
                }
                (format!("[{}]", vec![e; n].join(", ")), conds.join(" && "))
            }
            _ => {
                let p = t.strip_prefix("crate::")?;
                if self.derives.get(p)?.iter().any(|d| d == "Default") {
                    (format!("{}::v_default()", t), format!("crate::spec::is_default_{}({{x}})", last_ident(t)))
                } else {
                    return None;
                }
            }
        })
    }

    fn emit_struct(&mut self, mp: &str, s: &syn::ItemStruct) -> String {
        let name = s.ident.to_string();
        let key = Self::join(mp, &name);
        if let Some(t) = ext_type(&key) {
            return format!("pub use {};\n", t);
        }
        let mut fs = vec![];
        let mut ok = true;
        let gen = lifetimes(&s.generics).unwrap_or_else(|| {
            ok = false;
            String::new()
        });
        if let syn::Fields::Named(f) = &s.fields {
            for x in &f.named {
                match self.ty(mp, &x.ty, &None, false) {
                    Ok(t) => fs.push((x.ident.as_ref().unwrap().to_string(), t)),
                    Err(e) => {
                        self.dropped.push(format!("struct {}: {}", key, e));
                        ok = false
                    }
                }
            }
        } else {
            self.dropped.push(format!("struct {}: not a plain struct", key));
            ok = false;
        }
        if !ok {
            return format!("#[verifier::external_body] pub struct {} {{ p: () }}\n", name);
        }
        self.fields.insert(key.clone(), fs.clone());
        let mut o = format!("pub struct {}{} {{\n", name, gen);
        for (n, t) in &fs {
            o.push_str(&format!("    pub {}: {},\n", n, t));
        }
        o.push_str("}\n");
        if self.derives[&key].iter().any(|d| d == "Default") {
            let mut exec = vec![];
            let mut cond = vec![];
            let mut ok = true;
            for (n, t) in &fs {
                match self.default_of(t) {
                    Some((e, c)) => {
                        exec.push(format!("{}: {}", n, e));
                        cond.push(format!("({})", c.replace("{x}", &format!("r.{}", n))));
                    }
                    None => ok = false,
                }
            }
            if ok {
                o.push_str(&format!(
                    "impl {} {{\n    // expansion of #[derive(Default)]\n    pub fn v_default() -> (r: Self)\n        ensures {},\n    {{ {} {{ {} }} }}\n}}\n",
                    name,
                    cond.join(" && "),
                    name,
                    exec.join(", ")
                ));
            }
        }
        o
    }

    fn emit_enum(&mut self, mp: &str, e: &syn::ItemEnum) -> String {
        let name = e.ident.to_string();
        let mut o = format!("pub enum {} {{\n", name);
        let mut next: i64 = 0;
        let mut unit = true;
        for v in &e.variants {
            match &v.fields {
                syn::Fields::Unit => {
                    o.push_str(&format!("    {},\n", v.ident));
                }
                syn::Fields::Named(f) => {
                    unit = false;
                    let mut fs = vec![];
                    for x in &f.named {
                        match self.ty(mp, &x.ty, &None, false) {
                            Ok(t) => fs.push(format!("{}: {}", x.ident.as_ref().unwrap(), t)),
                            Err(er) => self.dropped.push(format!("enum {}: {}", name, er)),
                        }
                    }
                    o.push_str(&format!("    {} {{ {} }},\n", v.ident, fs.join(", ")));
                }
                syn::Fields::Unnamed(f) => {
                    unit = false;
                    let mut fs = vec![];
                    for x in &f.unnamed {
                        match self.ty(mp, &x.ty, &None, false) {
                            Ok(t) => fs.push(t),
                            Err(er) => self.dropped.push(format!("enum {}: {}", name, er)),
                        }
                    }
                    o.push_str(&format!("    {}({}),\n", v.ident, fs.join(", ")));
                }
            }
            next += 1;
        }
        let _ = (next, unit);
        o.push_str("}\n");
        o
    }

    fn emit_const(&mut self, mp: &str, file: &str, name: &str, ty: &syn::Type, ex: &syn::Expr) -> String {
        let r = (|| -> R<String> {
            let t = self.ty(mp, ty, &None, true)?;
            let key = Self::join(mp, name);
            let mut fx = Fx::new(self, mp, file, &key, None);
            let e = fx.expr(ex)?;
            if let (syn::Type::Reference(rt), Some(inner)) = (ty, e.strip_prefix('&')) {
                if matches!(&*rt.elem, syn::Type::Slice(_)) && inner.starts_with('[') {
                    return Ok(format!("pub exec const {}: {}\n    ensures {}@ == {}@\n{{ {} }}\n", name, t, name, inner, e));
                }
            }
            Ok(format!("pub const {}: {} = {};\n", name, t, e))
        })();
        match r {
            Ok(s) => s,
            Err(e) => {
                self.dropped.push(format!("const {}::{}: {}", mp, name, e));
                String::new()
            }
        }
    }

    fn emit_impl(&mut self, mp: &str, file: &str, i: &syn::ItemImpl) -> String {
        let st = &*i.self_ty;
        let trait_name = i
            .trait_
            .as_ref()
            .map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
        // blanket impl of a local trait
        if let Some(tn) = &trait_name {
            let key = Self::join(mp, tn);
            if self.types.contains(&key) {
                let bounds: Vec<String> = i
                    .generics
                    .params
                    .iter()
                    .filter_map(|p| match p {
                        syn::GenericParam::Type(t) => {
                            let bs: Vec<String> = t
                                .bounds
                                .iter()
                                .filter_map(|b| match b {
                                    syn::TypeParamBound::Trait(tb)
                                        if !matches!(tb.modifier, syn::TraitBoundModifier::Maybe(_)) =>
                                    {
                                        self.path_code(mp, &tb.path).ok()
                                    }
                                    _ => None,
                                })
                                .collect();
                            Some(format!("{}: {}", t.ident, bs.join(" + ")))
                        }
                        _ => None,
                    })
                    .collect();
                if i.items.is_empty() {
                    return format!(
                        "impl<{}> {} for {} {{}}\n",
                        bounds.join(", "),
                        tn,
                        quote::quote!(#st)
                    );
                }
                self.dropped.push(format!("impl {} for {}", tn, quote::quote!(#st)));
                return String::new();
            }
        }
        let Ok(self_t) = self.ty(mp, st, &None, false) else {
            self.dropped.push(format!("{}: impl for {}", mp, quote::quote!(#st)));
            return String::new();
        };
        let key_t = self_t.trim_start_matches("crate::").to_string();
        let mut err = None;
        for x in &i.items {
            if let syn::ImplItem::Type(t) = x {
                if t.ident == "Error" {
                    err = Some(t.ty.clone());
                }
            }
        }
        let Some(gen) = lifetimes(&i.generics) else {
            self.dropped.push(format!("{}: generic impl for {}", mp, key_t));
            return String::new();
        };
        let mut o = format!("impl{} {} {{\n", gen, self_t);
        let mut any = false;
        for x in &i.items {
            match x {
                syn::ImplItem::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    let (name, ok) = match trait_name.as_deref() {
                        None => (n.clone(), true),
                        Some("From") | Some("TryFrom") => {
                            let a = i.trait_.as_ref().unwrap().1.segments.last().unwrap();
                            let arg = &a.arguments;
                            (format!("{}_{}_{}", self.pre(), n, last_ident(&quote::quote!(#arg).to_string())), true)
                        }
                        Some("Default") => ("v_default".to_string(), true),
                        Some(_) => (n.clone(), false),
                    };
                    if !ok {
                        self.dropped.push(format!(
                            "impl {} for {}",
                            trait_name.clone().unwrap(),
                            key_t
                        ));
                        continue;
                    }
                    let k = format!("{}::{}", key_t, name);
                    o.push_str(&self.emit_fn(
                        mp, file, &k, &name, &f.sig, Some(&f.block), &err, Some(&self_t), false,
                    ));
                    any = true;
                }
                syn::ImplItem::Const(c) => {
                    o.push_str(&self.emit_const(mp, file, &c.ident.to_string(), &c.ty, &c.expr));
                    any = true;
                }
                _ => {}
            }
        }
        o.push_str("}\n");
        if any {
            o
        } else {
            String::new()
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_fn(
        &mut self,
        mp: &str,
        file: &str,
        key: &str,
        name: &str,
        sig: &syn::Signature,
        body: Option<&syn::Block>,
        err: &Option<syn::Type>,
        self_ty: Option<&str>,
        in_trait: bool,
    ) -> String {
        let c = self.cs.get(key).cloned();
        let vis = if in_trait { "" } else { "pub " };
        let mut rep = FnReport {
            name: key.to_string(),
            file: file.to_string(),
            line: sig.ident.span().start().line,
            status: "verified".into(),
            reason: String::new(),
            contracted: c.is_some(),
            loops: 0,
            locals: vec![],
            calls: vec![],
            ambiguous: vec![],
            text: String::new(),
        };
        // signature
        let mut params = vec![];
        let mut pnames = vec![];
        let head = (|| -> R<(String, String)> {
            for a in &sig.inputs {
                match a {
                    syn::FnArg::Receiver(r) => {
                        params.push(if r.reference.is_some() {
                            if r.mutability.is_some() { "&mut self".to_string() } else { "&self".to_string() }
                        } else {
                            "self".to_string()
                        });
                    }
                    syn::FnArg::Typed(t) => {
                        let syn::Pat::Ident(p) = &*t.pat else { return Err("parameter pattern".into()) };
                        let ty = self.ty(mp, &t.ty, err, false)?;
                        pnames.push(p.ident.to_string());
                        params.push(format!("{}{}: {}", if p.mutability.is_some() { "mut " } else { "" }, p.ident, ty));
                    }
                }
            }
            lifetimes(&sig.generics).ok_or("generic function")?;
            let ret = match &sig.output {
                syn::ReturnType::Default => String::new(),
                syn::ReturnType::Type(_, t) => self.ty(mp, t, err, false)?,
            };
            Ok((params.join(", "), ret))
        })();
        let (ps, ret) = match head {
            Ok(x) => x,
            Err(e) => {
                rep.status = "dropped".into();
                rep.reason = e;
                self.reports.push(rep);
                return format!("#[verifier::external] {}fn {}() {{ unimplemented!() }}\n", vis, name);
            }
        };
        if c.is_some() {
            self.used_contracts.insert(key.to_string());
        }
        // body
        let mut extra = String::new();
        let mut body_code: R<String> = Err("no body".into());
        if let Some(b) = body {
            let mut fx = Fx::new(self, mp, file, key, c.clone());
            fx.self_ty = self_ty.map(String::from);
            fx.ret_ty = ret.clone();
            fx.params = pnames.clone();
            for p in &pnames {
                fx.locals.push((p.clone(), "param".into()));
            }
            let r = fx.fn_body(b);
            rep.loops = fx.nloops;
            rep.locals = fx.locals.clone();
            rep.calls = fx.calls.iter().cloned().collect();
            extra = std::mem::take(&mut fx.extra);
            let mut amb = vec![];
            body_code = match r {
                Err(e) => Err(e),
                Ok(code) => match fx.finish(code, &mut amb) {
                    Ok(x) => Ok(x),
                    Err(e) => Err(format!("lost anchor: {}", e)),
                },
            };
            rep.ambiguous = amb;
        }
        if self.opaque.contains(key) {
            body_code = Err("rejected by the verifier's front end".into());
        }
        // header
        let mut hdr = String::new();
        if let Some(c) = &c {
            let sub = |t: &str| -> String {
                let mut t = t.to_string();
                for (i, role) in c.params.iter().enumerate() {
                    if let Some(actual) = pnames.get(i) {
                        t = subst(&t, role, actual);
                    }
                }
                t
            };
            for (w, cl) in [("requires", &c.requires), ("ensures", &c.ensures)] {
                if !cl.is_empty() {
                    hdr.push_str(&format!("    {}\n", w));
                    for (i, x) in cl.iter().enumerate() {
                        hdr.push_str(&clause_line(&sub(&x.text), x, &format!("{} {} #{}", key, w, i)));
                    }
                }
            }
            if !c.decreases.is_empty() {
                hdr.push_str(&format!("    decreases {}\n", sub(&c.decreases)));
            }
        }
        let rname = c.as_ref().map(|c| c.ret.clone()).unwrap_or("r".into());
        let rt = if ret.is_empty() { String::new() } else { format!(" -> ({}: {})", rname, ret) };
        let gen = lifetimes(&sig.generics).unwrap_or_default();
        let mut o = String::new();
        o.push_str(&format!("// @FN {}\n", key));
        if let Some(c) = &c {
            if in_trait && !c.trait_spec.is_empty() {
                o.push_str(&c.trait_spec);
            }
            for a in &c.attrs {
                o.push_str(&format!("#[{}]\n", a));
            }
        }
        match (&body_code, body.is_some()) {
            (Ok(code), _) => {
                o.push_str("#[verifier::loop_isolation(false)]\n");
                if c.is_none() {
                    // no contract: ends-normally is then not claimed by the verifier for this function
                    o.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
                }
                o.push_str(&format!("{}fn {}{}({}){}\n{}{}\n", vis, name, gen, ps, rt, hdr, code));
                rep.text = code.clone();
            }
            (Err(_), false) => {
                o.push_str(&format!("{}fn {}{}({}){}\n{};\n", vis, name, gen, ps, rt, hdr));
            }
            (Err(e), true) => {
                rep.status = "opaque".into();
                rep.reason = e.clone();
                extra.clear();
                o.push_str("#[verifier::external_body]\n");
                o.push_str(&format!("{}fn {}{}({}){}\n{}{{ unimplemented!() }}\n", vis, name, gen, ps, rt, hdr));
            }
        }
        o.push_str("// @ENDFN\n");
        o.push_str(&extra);
        self.reports.push(rep);
        o
    }

    pub fn report_json(&self) -> String {
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let mut fs = vec![];
        for r in &self.reports {
            fs.push(format!(
                "{{\"name\":{},\"file\":{},\"line\":{},\"status\":{},\"reason\":{},\"contracted\":{},\"loops\":{},\"locals\":[{}],\"calls\":[{}],\"ambiguous\":[{}]}}",
                esc(&r.name),
                esc(&r.file),
                r.line,
                esc(&r.status),
                esc(&r.reason),
                r.contracted,
                r.loops,
                r.locals.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect::<Vec<_>>().join(","),
                r.calls.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","),
                r.ambiguous
                    .iter()
                    .map(|(a, b)| format!("[{},[{}]]", esc(a), b.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")))
                    .collect::<Vec<_>>()
                    .join(",")
            ));
        }
        let unused: Vec<String> = self
            .cs
            .keys()
            .filter(|k| !self.used_contracts.contains(*k))
            .map(|k| esc(k))
            .collect();
        format!(
            "{{\"functions\":[\n{}\n],\n\"dropped\":[{}],\n\"unused_contracts\":[{}]}}\n",
            fs.join(",\n"),
            self.dropped.iter().map(|d| esc(d)).collect::<Vec<_>>().join(","),
            unused.join(",")
        )
    }
}

fn clause_line(text: &str, c: &Clause, id: &str) -> String {
    let t = text.trim().trim_end_matches(',');
    format!("        {}, //@L {} {}\n", t, c.label, id)
}

/// replaces $role by actual
fn subst(t: &str, role: &str, actual: &str) -> String {
    let pat = format!("${}", role);
    let mut o = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(&pat) {
        let after = rest[i + pat.len()..].chars().next();
        o.push_str(&rest[..i]);
        if after.is_some_and(|c| c.is_alphanumeric() || c == '_') {
            o.push_str(&pat);
        } else {
            o.push_str(actual);
        }
        rest = &rest[i + pat.len()..];
    }
    o.push_str(rest);
    o
}

fn roles_in(t: &str) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '$' {
            let mut j = i + 1;
            let mut n = String::new();
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                n.push(cs[j]);
                j += 1;
            }
            if !n.is_empty() {
                s.insert(n);
            }
            i = j;
        } else {
            i += 1;
        }
    }
    s
}

#[derive(Clone)]
enum Op<'a> {
    Map(&'a syn::Expr),
    Filter(&'a syn::Expr),
    FilterMap(&'a syn::Expr),
    TakeWhile(&'a syn::Expr),
    Enumerate,
    Cloned,
    Copied,
    Flatten,
    Take(&'a syn::Expr),
    Skip(&'a syn::Expr),
    Rev,
}

struct Pipe<'a> {
    /// expression bound to the source variable, and how element k is read
    src: String,
    elem: SrcElem,
    item_ty: String,
    ops: Vec<Op<'a>>,
    total: Option<String>,
}

#[derive(Clone, PartialEq)]
enum SrcElem {
    Ref,
    Move,
    Copy,
    Range(String, String),
}

pub struct Fx<'g> {
    g: &'g mut Global,
    mp: String,
    file: String,
    key: String,
    c: Option<Contract>,
    pub self_ty: Option<String>,
    pub ret_ty: String,
    pub params: Vec<String>,
    pub locals: Vec<(String, String)>,
    pub calls: BTreeSet<String>,
    pub nloops: usize,
    pub extra: String,
    ncmp: usize,
    tmp: usize,
    closure_depth: usize,
    consts: String,
    iters: HashMap<String, String>,
    /// closures kept in variables: what they stand for, and how many variables there were
    closures: HashMap<String, (syn::ExprClosure, usize)>,
}

/// the names an expression mentions
struct Names(BTreeSet<String>);
impl<'a> Visit<'a> for Names {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.0.insert(i.to_string());
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let t = m.tokens.to_string();
        let words = t.split(|c: char| !c.is_alphanumeric() && c != '_');
        self.0.extend(words.filter(|w| !w.is_empty()).map(String::from));
    }
}

/// the type without the places closures were written at
fn no_closures(t: &str) -> String {
    let mut o = String::new();
    let mut r = t;
    while let Some(i) = r.find("{closure@") {
        let Some(j) = r[i..].find('}') else { break };
        o.push_str(&r[..i]);
        o.push_str("{closure}");
        r = &r[i + j + 1..];
    }
    o + r
}

fn is_iterator(t: &str) -> bool {
    ["std::iter::", "core::iter::", "std::slice::Iter", "core::slice::Iter", "std::str::Chars", "std::str::Split<", "std::str::Bytes", "std::vec::IntoIter", "core::str::Chars"]
        .iter()
        .any(|p| t.starts_with(p))
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

impl<'g> Fx<'g> {
    fn new(g: &'g mut Global, mp: &str, file: &str, key: &str, c: Option<Contract>) -> Self {
        Fx {
            g,
            mp: mp.to_string(),
            file: file.to_string(),
            key: key.to_string(),
            c,
            self_ty: None,
            ret_ty: String::new(),
            params: vec![],
            locals: vec![],
            calls: BTreeSet::new(),
            nloops: 0,
            extra: String::new(),
            ncmp: 0,
            tmp: 0,
            closure_depth: 0,
            consts: String::new(),
            iters: HashMap::new(),
            closures: HashMap::new(),
        }
    }

    fn t(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("__{}{}", p, self.tmp)
    }

    fn ty(&self, e: &syn::Expr) -> R<String> {
        let e = strip(e);
        self.g
            .tm
            .ty(&self.file, e.span())
            .ok_or_else(|| format!("no type for `{}`", short(e)))
    }
    fn adj(&self, e: &syn::Expr) -> R<String> {
        let e = strip(e);
        self.g
            .tm
            .adj(&self.file, e.span())
            .ok_or_else(|| format!("no type for `{}`", short(e)))
    }

    fn fn_body(&mut self, b: &syn::Block) -> R<String> {
        // hoist local constants
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                let t = self.g.ty(&self.mp, &c.ty, &None, true)?;
                let e = self.expr(&c.expr)?;
                self.consts.push_str(&format!("let {}: {} = {};\n", c.ident, t, e));
            }
        }
        let inner = self.stmts(&b.stmts)?;
        let (entry, tail) = match &self.c {
            Some(c) => (c.entry.clone(), c.tail.clone()),
            None => Default::default(),
        };
        let (stm, last) = inner;
        let mut o = String::from("{\n");
        o.push_str(&std::mem::take(&mut self.consts));
        if !entry.is_empty() {
            o.push_str("/*@P*/\n");
            o.push_str(&entry);
        }
        let text = format!("{stm}{last}");
        if !entry.contains("reveal_strlit(\"\")") && text.match_indices("\"\"").any(|(i, _)| !text[..i].ends_with(['\\', '"'])) {
            o.push_str("proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }\n");
        }
        o.push_str(&self.mark("entry"));
        o.push_str(&stm);
        o.push_str(&self.mark("tail"));
        if !tail.is_empty() {
            o.push_str(&tail);
        }
        o.push_str(&last);
        o.push_str("\n}");
        Ok(o)
    }

    /// role resolution over the finished text
    fn finish(&mut self, code: String, amb: &mut Vec<(String, Vec<String>)>) -> R<String> {
        let Some(c) = self.c.clone() else { return Ok(code) };
        if let Some((m, _)) = c.loops.iter().next_back() {
            if *m >= self.nloops {
                return Err(format!("{} loops expected, {} found", m + 1, self.nloops));
            }
        }
        let mut code = code;
        for (i, p) in c.params.iter().enumerate() {
            if let Some(a) = self.params.get(i) {
                code = subst(&code, p, a);
            }
        }
        let names: BTreeSet<String> = self.locals.iter().map(|l| l.0.clone()).collect();
        let need = roles_in(&code);
        let mut taken: BTreeSet<String> = need.iter().filter(|r| names.contains(*r)).cloned().collect();
        for r in &need {
            if let Some(n) = self.g.roles.get(&(self.key.clone(), r.clone())) {
                code = subst(&code, r, n);
                taken.insert(n.clone());
                continue;
            }
            if names.contains(r) {
                // the baseline type must still be the type, if recorded
                let want = c.locals.get(r);
                let ok = match want {
                    Some(w) => self.locals.iter().any(|l| &l.0 == r && (l.1 == *w || l.1 == "param")),
                    None => true,
                };
                if ok {
                    code = subst(&code, r, r);
                    continue;
                }
            }
            let Some(w) = c.locals.get(r) else {
                return Err(format!("no local `{}`", r));
            };
            let mut cand: Vec<String> = vec![];
            for (n, t) in &self.locals {
                if t == w && !taken.contains(n) && !cand.contains(n) {
                    cand.push(n.clone());
                }
            }
            if cand.is_empty() {
                return Err(format!("no local of type {} for `{}`", w, r));
            }
            if cand.len() > 1 {
                amb.push((r.clone(), cand.clone()));
            }
            taken.insert(cand[0].clone());
            code = subst(&code, r, &cand[0]);
        }
        Ok(code)
    }

    fn stmts(&mut self, ss: &[syn::Stmt]) -> R<(String, String)> {
        let mut o = String::new();
        let mut last = String::new();
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            match s {
                syn::Stmt::Local(l) => o.push_str(&self.local(l)?),
                syn::Stmt::Item(syn::Item::Const(c)) => {
                    if !self.consts.contains(&format!("let {}: ", c.ident)) {
                        let t = self.g.ty(&self.mp, &c.ty, &None, true)?;
                        let e = self.expr(&c.expr)?;
                        o.push_str(&format!("let {}: {} = {};\n", c.ident, t, e));
                    }
                }
                syn::Stmt::Item(_) => return Err("item inside a function".into()),
                syn::Stmt::Expr(e, semi) => {
                    let code = if matches!(
                        strip(e),
                        syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)
                    ) {
                        self.loop_stmt(strip(e), None)?
                    } else {
                        self.expr(e)?
                    };
                    if i + 1 == n && semi.is_none() {
                        last = code;
                    } else {
                        let blocky = matches!(
                            e,
                            syn::Expr::If(_)
                                | syn::Expr::Match(_)
                                | syn::Expr::Block(_)
                                | syn::Expr::While(_)
                                | syn::Expr::ForLoop(_)
                                | syn::Expr::Loop(_)
                        );
                        if blocky && semi.is_none() {
                            o.push_str(&format!("{}\n", code));
                        } else if code.starts_with('{') || code.starts_with("match") || code.starts_with("if") {
                            o.push_str(&format!("let _ = {};\n", code));
                        } else {
                            o.push_str(&format!("{};\n", code));
                        }
                    }
                }
                syn::Stmt::Macro(m) => {
                    let code = self.mac(&m.mac, None)?;
                    if i + 1 == n && m.semi_token.is_none() {
                        last = code;
                    } else {
                        o.push_str(&format!("{};\n", code));
                    }
                }
            }
        }
        Ok((o, last))
    }

    fn block(&mut self, b: &syn::Block) -> R<String> {
        let (s, l) = self.stmts(&b.stmts)?;
        Ok(format!("{{\n{}{}\n}}", s, l))
    }

    /// a call of a closure kept in a variable: its body, in place
    fn call_closure(&mut self, name: &str, args: Vec<String>) -> R<String> {
        let (c, n) = self.closures.get(name).cloned().ok_or("closure")?;
        let mut used = Names(BTreeSet::new());
        used.visit_expr(&c.body);
        if self.locals[n.min(self.locals.len())..].iter().any(|(l, t)| used.0.contains(l) || used.0.contains(t)) {
            return Err("closure over a name that is used again".into());
        }
        let mut o = String::from("({ ");
        let mut a = vec![];
        for x in args {
            let t = self.t("a");
            o.push_str(&format!("let {} = {}; ", t, x));
            a.push(t);
        }
        let k = self.locals.len();
        let b = self.apply(&syn::Expr::Closure(c), &a)?;
        // its own variables are out of scope again
        self.closures.values_mut().for_each(|c| {
            if c.1 >= k {
                c.1 = usize::MAX
            }
        });
        if let Some(c) = self.closures.get_mut(name) {
            c.1 = n + (self.locals.len() - k);
        }
        o.push_str(&b);
        o.push_str(" })");
        Ok(o)
    }

    fn local(&mut self, l: &syn::Local) -> R<String> {
        if let (syn::Pat::Ident(id), Some(i)) = (&l.pat, &l.init) {
            let name = id.ident.to_string();
            if let (syn::Expr::Closure(c), None) = (strip(&i.expr), &i.diverge) {
                if c.capture.is_some() || self.closures.contains_key(&name) || id.subpat.is_some() {
                    return Err("closure value".into());
                }
                self.closures.insert(name, (c.clone(), self.locals.len()));
                return Ok(String::new());
            }
            if self.closures.contains_key(&name) {
                return Err("closure value".into());
            }
        }
        // `let [a, b] = array;` names the elements
        if let (syn::Pat::Slice(ps), Some(i)) = (&l.pat, &l.init) {
            let t = self.ty(&i.expr)?;
            let plain = ps.elems.iter().all(|p| matches!(p, syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) || matches!(p, syn::Pat::Wild(_)));
            let scalar = targs(&t).first().is_some_and(|e| matches!(kind(e), K::Int | K::Bool | K::Char) && !e.starts_with('&'));
            if kind(&t) == K::Array && deref(&t).0 == 0 && i.diverge.is_none() && plain && scalar {
                let a = self.t("a");
                let mut o = format!("let {} = {};\n", a, self.expr(&i.expr)?);
                for (k, p) in ps.elems.iter().enumerate() {
                    if let syn::Pat::Ident(_) = p {
                        o.push_str(&format!("let {} = {}[{}];\n", self.pat(p)?, a, k));
                    }
                }
                return Ok(o);
            }
        }
        let (p, ty) = match &l.pat {
            syn::Pat::Type(t) => (
                self.pat(&t.pat)?,
                match self.g.ty(&self.mp, &t.ty, &None, false) {
                    Ok(t) => Some(t),
                    Err(_) if matches!(&*t.ty, syn::Type::Infer(_)) => None,
                    Err(e) => return Err(e),
                },
            ),
            p => {
                let code = self.pat(p)?;
                // give untyped `Vec::new()`-like initialisers their inferred type
                let mut ty = None;
                if let syn::Pat::Ident(id) = p {
                    if l.init.as_ref().is_some_and(|i| i.diverge.is_none()) {
                        if let Some(t) = self.g.tm.pat(&self.file, id.span()) {
                            if matches!(kind(&t), K::Int | K::Vec | K::HashMap | K::BTreeMap | K::Opt) && deref(&t).0 == 0 {
                                ty = self.g.render_ty(&t).ok();
                            }
                        }
                    }
                }
                (code, ty)
            }
        };
        let t = ty.map(|t| format!(": {}", t)).unwrap_or_default();
        if let (syn::Pat::Ident(id), Some(i)) = (&l.pat, &l.init) {
            let it = self.g.tm.pat(&self.file, id.span()).unwrap_or_default();
            if is_iterator(&it) && i.diverge.is_none() {
                let c = self.iterator_value(&id.ident.to_string(), &i.expr)?;
                return Ok(format!("let {} = {};\n", p, c));
            }
        }
        match &l.init {
            None => Ok(format!("let {}{};\n", p, t)),
            Some(i) => {
                let e = self.coerce(&i.expr)?;
                match &i.diverge {
                    None => Ok(format!("let {}{} = {};\n", p, t, e)),
                    Some((_, d)) => {
                        let d = self.expr(d)?;
                        let d = if d.trim_start().starts_with('{') { d } else { format!("{{ {} }}", d) };
                        Ok(format!("let {}{} = {} else {};\n", p, t, par(&e), d))
                    }
                }
            }
        }
    }

    /// an iterator kept in a variable: the items it will yield
    fn iterator_value(&mut self, name: &str, e: &syn::Expr) -> R<String> {
        let p = self.pipe(e)?;
        let n = self.nloops;
        let acc = format!("__acc{}", n);
        let a = acc.clone();
        let item = std::cell::RefCell::new(String::new());
        let c = self.run(
            p,
            format!("let mut {}: Vec<@ITEM@> = Vec::new();\n", acc),
            String::new(),
            acc.clone(),
            &mut |_fx, v, t| {
                *item.borrow_mut() = t;
                Ok(format!("{}.push({});\n", a, v))
            },
        )?;
        let item = item.into_inner();
        let r = self.g.render_ty(&item)?;
        self.locals.push((acc, format!("std::vec::Vec<{}>", item)));
        self.iters.insert(name.to_string(), item);
        Ok(format!("v_iter({})", c.replace("@ITEM@", &r)))
    }

    fn pat(&mut self, p: &syn::Pat) -> R<String> {
        Ok(match p {
            syn::Pat::Ident(i) => {
                if i.subpat.is_some() {
                    return Err("@ pattern".into());
                }
                let n = i.ident.to_string();
                if let Some(t) = self.g.tm.pat(&self.file, i.span()) {
                    self.locals.push((n.clone(), no_closures(&t)));
                } else {
                    // a constant or unit variant in a pattern
                    let segs = vec![n.clone()];
                    let (full, local) = self.g.resolve(&self.mp, &segs);
                    if local && full.len() > 1 {
                        return Ok(format!("crate::{}", full.join("::")));
                    }
                }
                format!(
                    "{}{}{}",
                    if i.by_ref.is_some() { "ref " } else { "" },
                    if i.mutability.is_some() { "mut " } else { "" },
                    n
                )
            }
            syn::Pat::Wild(_) => "_".into(),
            syn::Pat::Rest(_) => "..".into(),
            syn::Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("({})", v?.join(", "))
            }
            syn::Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.pat(x)).collect();
                format!("{}({})", self.g.path_code(&self.mp, &t.path)?, v?.join(", "))
            }
            syn::Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let m = &f.member;
                    if f.colon_token.is_some() {
                        v.push(format!("{}: {}", quote::quote!(#m), self.pat(&f.pat)?));
                    } else {
                        v.push(self.pat(&f.pat)?);
                    }
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.g.path_code(&self.mp, &s.path)?, v.join(", "))
            }
            syn::Pat::Path(p) => self.g.path_code(&self.mp, &p.path)?,
            syn::Pat::Lit(l) => match &l.lit {
                syn::Lit::Int(_) | syn::Lit::Bool(_) | syn::Lit::Char(_) => quote::quote!(#l).to_string(),
                syn::Lit::Byte(b) => format!("{}u8", b.value()),
                _ => return Err("literal pattern".into()),
            },
            syn::Pat::Range(r) => quote::quote!(#r).to_string().replace(' ', ""),
            syn::Pat::Or(o) => {
                let v: R<Vec<String>> = o.cases.iter().map(|x| self.pat(x)).collect();
                v?.join(" | ")
            }
            syn::Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            syn::Pat::Paren(p) => self.pat(&p.pat)?,
            syn::Pat::Type(t) => self.pat(&t.pat)?,
            _ => return Err(format!("pattern {}", quote::quote!(#p))),
        })
    }

    /// binds `arg` to a closure-style pattern
    fn bind(&mut self, p: &syn::Pat, arg: &str) -> R<String> {
        match p {
            syn::Pat::Wild(_) => Ok(format!("let _ = {};\n", arg)),
            syn::Pat::Type(t) => self.bind(&t.pat, arg),
            syn::Pat::Paren(t) => self.bind(&t.pat, arg),
            syn::Pat::Reference(r) => {
                let a = format!("*{}", par(arg));
                self.bind(&r.pat, &a)
            }
            _ => Ok(format!("let {} = {};\n", self.pat(p)?, arg)),
        }
    }

    fn exprs(&mut self, es: impl IntoIterator<Item = &'static syn::Expr>) -> R<Vec<String>> {
        es.into_iter().map(|e| self.expr(e)).collect()
    }

    /// expression with the implicit coercion rustc applied made explicit
    fn coerce(&mut self, e: &syn::Expr) -> R<String> {
        let (t, a) = match (self.ty(e), self.adj(e)) {
            (Ok(t), Ok(a)) => (t, a),
            _ => return self.expr(e),
        };
        if t == a {
            return self.expr(e);
        }
        match (kind(&t), kind(&a)) {
            (K::Vec, K::Slice) | (K::Array, K::Slice) => {
                if a.starts_with("&mut") {
                    return self.expr(e);
                }
                self.slice_of(e)
            }
            (K::String, K::Str) => self.str_of(e),
            _ => {
                let (n, b) = deref(&t);
                let (m, c) = deref(&a);
                let code = self.expr(e)?;
                if b == c && n > m && !a.starts_with("&mut") {
                    Ok(format!("{}{}", "*".repeat(n - m), par(&code)))
                } else {
                    Ok(code)
                }
            }
        }
    }

    /// a `&[T]` value for a slice, Vec or array valued expression
    fn slice_of(&mut self, e: &syn::Expr) -> R<String> {
        let t = self.ty(e)?;
        let (n, b) = deref(&t);
        let e0 = strip(e);
        match kind(&b) {
            K::Vec => {
                let inner = if let syn::Expr::Reference(r) = e0 { self.expr(&r.expr)? } else { self.expr(e0)? };
                Ok(format!("{}.as_slice()", par(&inner)))
            }
            K::Array => {
                let inner = match e0 {
                    syn::Expr::Reference(r) if !matches!(strip(&r.expr), syn::Expr::Array(_) | syn::Expr::Lit(_)) => {
                        self.expr(&r.expr)?
                    }
                    _ => self.expr(e0)?,
                };
                Ok(format!("{}.as_slice()", par(&inner)))
            }
            K::Slice => {
                if n == 0 {
                    match e0 {
                        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.slice_of(&u.expr),
                        syn::Expr::Index(_) => self.expr(e0), // emitted as a reference
                        _ => Err(format!("unsized value `{}`", short(e0))),
                    }
                } else if n == 1 {
                    self.expr(e0)
                } else {
                    let c = self.expr(e0)?;
                    Ok(format!("{}{}", "*".repeat(n - 1), par(&c)))
                }
            }
            K::Str | K::String => {
                let s = self.str_of(e)?;
                Ok(format!("v_str_bytes({})", s))
            }
            _ => Err(format!("not a slice: {} : {}", short(e), t)),
        }
    }

    fn str_of(&mut self, e: &syn::Expr) -> R<String> {
        let t = self.ty(e)?;
        let (n, b) = deref(&t);
        let e0 = strip(e);
        match kind(&b) {
            K::String => {
                let inner = if let syn::Expr::Reference(r) = e0 { self.expr(&r.expr)? } else { self.expr(e0)? };
                Ok(format!("{}.as_str()", par(&inner)))
            }
            K::Str => {
                if n == 0 {
                    match e0 {
                        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => self.str_of(&u.expr),
                        syn::Expr::Index(_) => self.expr(e0),
                        _ => Err(format!("unsized value `{}`", short(e0))),
                    }
                } else if n == 1 {
                    self.expr(e0)
                } else {
                    let c = self.expr(e0)?;
                    Ok(format!("{}{}", "*".repeat(n - 1), par(&c)))
                }
            }
            _ => Err(format!("not a string: {} : {}", short(e), t)),
        }
    }

    /// value of an integer/bool/char expression with references removed
    fn scalar(&mut self, e: &syn::Expr) -> R<String> {
        let t = self.ty(e)?;
        let (n, _) = deref(&t);
        if let syn::Expr::Reference(r) = strip(e) {
            if n >= 1 {
                return self.scalar(&r.expr);
            }
        }
        let c = self.expr(e)?;
        Ok(if n > 0 { format!("{}{}", "*".repeat(n), par(&c)) } else { c })
    }

    pub fn expr(&mut self, e: &syn::Expr) -> R<String> {
        match e {
            syn::Expr::Paren(p) => Ok(par(&self.expr(&p.expr)?)),
            syn::Expr::Group(p) => self.expr(&p.expr),
            syn::Expr::Lit(l) => self.lit(&l.lit),
            syn::Expr::Path(p) => self.path_value(e, p),
            syn::Expr::Array(a) => {
                let v: R<Vec<String>> = a.elems.iter().map(|x| self.expr(x)).collect();
                Ok(format!("[{}]", v?.join(", ")))
            }
            syn::Expr::Repeat(r) => {
                let l = &r.len;
                Ok(format!("[{}; {}]", self.expr(&r.expr)?, quote::quote!(#l)))
            }
            syn::Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.coerce(x)).collect();
                let v = v?;
                Ok(if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) })
            }
            syn::Expr::Assign(a) => {
                let l = self.expr(&a.left)?;
                let r = self.coerce(&a.right)?;
                Ok(format!("{} = {}", l, r))
            }
            syn::Expr::Binary(b) => self.binary(b),
            syn::Expr::Unary(u) => match u.op {
                syn::UnOp::Deref(_) => Ok(format!("*{}", par(&self.expr(&u.expr)?))),
                syn::UnOp::Not(_) => Ok(format!("!{}", par(&self.expr(&u.expr)?))),
                syn::UnOp::Neg(_) => Ok(format!("-{}", par(&self.expr(&u.expr)?))),
                _ => Err("unary operator".into()),
            },
            syn::Expr::Cast(c) => {
                let t = self.g.ty(&self.mp, &c.ty, &None, false)?;
                let f = self.ty(&c.expr)?;
                if !matches!(kind(&f), K::Int | K::Bool | K::Char) || !matches!(t.as_str(), "u8"|"u16"|"u32"|"u64"|"usize"|"i8"|"i16"|"i32"|"i64"|"isize"|"u128"|"i128") {
                    return Err(format!("cast {} as {}", f, t));
                }
                let code = self.expr(&c.expr)?;
                Ok(format!("({} as {})", par(&code), t))
            }
            syn::Expr::Field(f) => {
                let m = &f.member;
                Ok(format!("{}.{}", par(&self.expr(&f.base)?), quote::quote!(#m)))
            }
            syn::Expr::Reference(r) => self.reference(r),
            syn::Expr::Index(i) => self.index(i),
            syn::Expr::Block(b) if b.label.is_none() => self.block(&b.block),
            syn::Expr::If(i) => self.if_(i),
            syn::Expr::Match(m) => self.match_(m),
            syn::Expr::Return(r) => {
                if self.closure_depth > 0 {
                    return Err("return inside a closure".into());
                }
                match &r.expr {
                    None => Ok("return".into()),
                    Some(x) => Ok(format!("return {}", self.coerce(x)?)),
                }
            }
            syn::Expr::Break(b) => {
                if b.label.is_some() {
                    return Err("labelled break".into());
                }
                match &b.expr {
                    None => Ok("break".into()),
                    Some(_) => Err("break with a value".into()),
                }
            }
            syn::Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("labelled continue".into());
                }
                Ok("continue".into())
            }
            syn::Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    let m = &f.member;
                    v.push(format!("{}: {}", quote::quote!(#m), self.coerce(&f.expr)?));
                }
                let p = self.g.path_code(&self.mp, &s.path)?;
                let Some(rest) = &s.rest else { return Ok(format!("{} {{ {} }}", p, v.join(", "))) };
                // the fields given come first, then the rest
                let mut o = String::from("({ ");
                let mut w = vec![];
                for (f, x) in s.fields.iter().zip(&v) {
                    let m = &f.member;
                    let t = self.t("f");
                    o.push_str(&format!("let {} = {}; ", t, x.split_once(": ").unwrap().1));
                    w.push(format!("{}: {}", quote::quote!(#m), t));
                }
                let b = self.t("b");
                o.push_str(&format!("let {} = {}; {} {{ {}, ..{} }} }})", b, self.expr(rest)?, p, w.join(", "), b));
                Ok(o)
            }
            syn::Expr::Try(t) => {
                if self.closure_depth > 0 {
                    return Err("`?` inside a closure".into());
                }
                let ty = self.ty(&t.expr)?;
                let c = self.expr(&t.expr)?;
                let v = self.t("v");
                match kind(&ty) {
                    K::Res => {
                        let er = self.t("e");
                        let from = targs(&ty).get(1).cloned().unwrap_or_default();
                        let conv = if self.ret_err_is(&from) { er.clone() } else { format!("v_conv({})", er) };
                        Ok(format!(
                            "(match ({}) {{ Ok({v}) => {v}, Err({er}) => return Err({conv}) }})",
                            c
                        ))
                    }
                    K::Opt => Ok(format!("(match ({}) {{ Some({v}) => {v}, None => return None }})", c)),
                    _ => Err(format!("`?` on {}", ty)),
                }
            }
            syn::Expr::Call(c) => {
                let args: R<Vec<String>> = c.args.iter().map(|a| self.coerce(a)).collect();
                let args = args?;
                self.call(&c.func, args, Some(e))
            }
            syn::Expr::MethodCall(m) => self.method(e, m),
            syn::Expr::Macro(m) => self.mac(&m.mac, Some(e)),
            syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::ForLoop(_) => self.loop_stmt(e, None),
            syn::Expr::Closure(_) => Err("closure value".into()),
            syn::Expr::Range(r) => {
                let (a, b) = self.range(e)?;
                match (a, b, &r.limits) {
                    (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => {
                        Ok(format!("core::ops::Range {{ start: {}, end: {} }}", a, b))
                    }
                    _ => Err("range value".into()),
                }
            }
            syn::Expr::Let(_) => Err("let chain".into()),
            _ => Err(format!("expression `{}`", short(e))),
        }
    }

    fn ret_err_is(&self, from: &str) -> bool {
        let Ok(f) = self.g.render_ty(from) else { return false };
        self.ret_ty.ends_with(&format!(", {}>", f))
    }

    fn lit(&mut self, l: &syn::Lit) -> R<String> {
        Ok(match l {
            syn::Lit::ByteStr(b) => {
                let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
                format!("&[{}]", v.join(", "))
            }
            syn::Lit::Byte(b) => format!("{}u8", b.value()),
            syn::Lit::Str(s) => format!("{:?}", s.value()),
            syn::Lit::Int(_) | syn::Lit::Bool(_) | syn::Lit::Char(_) => quote::quote!(#l).to_string(),
            _ => return Err("literal".into()),
        })
    }

    fn path_value(&mut self, e: &syn::Expr, p: &syn::ExprPath) -> R<String> {
        if let Some(d) = self.g.tm.path(&self.file, e.span()) {
            let d = strip_generics(&d);
            match d.as_str() {
                "std::time::Duration::ZERO" | "core::time::Duration::ZERO" => {
                    return Ok("v_duration_zero()".into())
                }
                _ => {}
            }
            // local constant or unit variant
            let parts: Vec<&str> = d.split("::").collect();
            if parts.len() > 1 {
                let parent = parts[..parts.len() - 1].join("::");
                if self.g.types.contains(&parent) {
                    return Ok(format!("crate::{}", d));
                }
                if self.g.mod_paths.contains(&parent) {
                    return Ok(format!("crate::{}", d));
                }
                // constants local to a function
                if self.g.fns.contains_key(&parent) || p.path.segments.len() == 1 {
                    return Ok(p.path.segments.last().unwrap().ident.to_string());
                }
                if parent.ends_with("io::ErrorKind") {
                    return Ok("()".into());
                }
                if d.starts_with("core::num::") || d.starts_with("std::num::") {
                    let pp = &p.path;
                    return Ok(quote::quote!(#pp).to_string().replace(' ', ""));
                }
            }
        }
        if self.g.tm.path(&self.file, e.span()).is_none() && p.path.segments.len() == 1 {
            return Ok(p.path.segments[0].ident.to_string());
        }
        self.g.path_code(&self.mp, &p.path)
    }

    fn reference(&mut self, r: &syn::ExprReference) -> R<String> {
        let inner = strip(&r.expr);
        if let syn::Expr::Index(i) = inner {
            let it = self.ty(&i.index)?;
            if matches!(kind(&it), K::Range | K::RangeFrom | K::RangeTo | K::RangeIncl) || it.starts_with("std::ops::Range") {
                if r.mutability.is_some() {
                    return Err("mutable slice".into());
                }
                return self.index(i);
            }
        }
        if let syn::Expr::Lit(l) = inner {
            if matches!(l.lit, syn::Lit::ByteStr(_)) {
                return Ok(format!("&{}", self.expr(inner)?));
            }
        }
        let t = self.ty(inner)?;
        if matches!(kind(&t), K::Str | K::Slice) && deref(&t).0 == 0 {
            // &*x of an unsized value
            return if kind(&t) == K::Str { self.str_of(inner) } else { self.slice_of(inner) };
        }
        let c = self.expr(inner)?;
        Ok(format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, par_unary(&c)))
    }

    fn index(&mut self, i: &syn::ExprIndex) -> R<String> {
        let bt = self.ty(&i.expr)?;
        let it = self.ty(&i.index)?;
        let is_range = it.starts_with("std::ops::Range") || it.starts_with("core::ops::Range");
        match kind(&bt) {
            K::HashMap | K::BTreeMap => {
                let b = self.expr(&i.expr)?;
                let k = self.expr(&i.index)?;
                Ok(format!("(*{}.v_index({}))", par(&b), k))
            }
            K::Str | K::String if is_range => {
                let s = self.str_of(&i.expr)?;
                let (a, b) = self.range(&i.index)?;
                Ok(match (a, b) {
                    (Some(a), Some(b)) => format!("v_str_slice({}, {}, {})", s, a, b),
                    (None, Some(b)) => format!("v_str_slice_to({}, {})", s, b),
                    (Some(a), None) => format!("v_str_slice_from({}, {})", s, a),
                    (None, None) => s,
                })
            }
            K::Slice | K::Vec | K::Array if is_range => {
                let s = self.slice_of(&i.expr)?;
                let (a, b) = self.range(&i.index)?;
                Ok(match (a, b) {
                    (Some(a), Some(b)) => format!("v_slice({}, {}, {})", s, a, b),
                    (None, Some(b)) => format!("v_slice_to({}, {})", s, b),
                    (Some(a), None) => format!("v_slice_from({}, {})", s, a),
                    (None, None) => s,
                })
            }
            K::Slice | K::Vec | K::Array => {
                let b = self.expr(&i.expr)?;
                let k = self.scalar(&i.index)?;
                Ok(format!("{}[{}]", par(&b), k))
            }
            _ => Err(format!("index into {}", bt)),
        }
    }

    /// (start, end) code of a range expression, end exclusive
    fn range(&mut self, e: &syn::Expr) -> R<(Option<String>, Option<String>)> {
        match strip(e) {
            syn::Expr::Range(r) => {
                let a = r.start.as_ref().map(|x| self.scalar(x)).transpose()?;
                let b = r.end.as_ref().map(|x| self.scalar(x)).transpose()?;
                let b = match (&r.limits, b) {
                    (syn::RangeLimits::Closed(_), Some(b)) => Some(format!("{} + 1", b)),
                    (_, b) => b,
                };
                Ok((a, b))
            }
            other => {
                let t = self.ty(other)?;
                if kind(&t) == K::Range {
                    let c = self.expr(other)?;
                    Ok((Some(format!("{}.start", par(&c))), Some(format!("{}.end", par(&c)))))
                } else {
                    Err(format!("range of type {}", t))
                }
            }
        }
    }

    fn binary(&mut self, b: &syn::ExprBinary) -> R<String> {
        use syn::BinOp::*;
        let op = match b.op {
            Eq(_) | Ne(_) => {
                let c = self.eq(&b.left, &b.right)?;
                return Ok(if matches!(b.op, Ne(_)) { format!("!{}", par(&c)) } else { c });
            }
            Add(_) => "+",
            Sub(_) => "-",
            Mul(_) => "*",
            Div(_) => "/",
            Rem(_) => "%",
            And(_) => "&&",
            Or(_) => "||",
            BitAnd(_) => "&",
            BitOr(_) => "|",
            BitXor(_) => "^",
            Shl(_) => "<<",
            Shr(_) => ">>",
            Lt(_) => "<",
            Le(_) => "<=",
            Gt(_) => ">",
            Ge(_) => ">=",
            AddAssign(_) => "+=",
            SubAssign(_) => "-=",
            MulAssign(_) => "*=",
            DivAssign(_) => "/=",
            RemAssign(_) => "%=",
            BitAndAssign(_) => "&=",
            BitOrAssign(_) => "|=",
            BitXorAssign(_) => "^=",
            _ => return Err("operator".into()),
        };
        let lt = self.ty(&b.left)?;
        if lt == "std::time::Duration" && matches!(op, "+" | "-" | "<" | "<=" | ">" | ">=") && self.ty(&b.right)? == lt {
            let f = match op {
                "+" => "v_dur_add",
                "-" => "v_dur_sub",
                "<" => "v_dur_lt",
                "<=" => "v_dur_le",
                ">" => "v_dur_gt",
                _ => "v_dur_ge",
            };
            let (l, r) = (self.expr(&b.left)?, self.expr(&b.right)?);
            return Ok(format!("{}({}, {})", f, l, r));
        }
        if kind(&lt) == K::String && deref(&lt).0 == 0 && op == "+" {
            let l = self.expr(&b.left)?;
            return Ok(format!("v_str_cat({}, {})", l, self.str_of(&b.right)?));
        }
        if !matches!(kind(&lt), K::Int | K::Bool | K::Char) {
            return Err(format!("operator {} on {}", op, lt));
        }
        if op.ends_with('=') && !matches!(op, "<=" | ">=") {
            // x op= e   =>   x = x op e
            let o = &op[..op.len() - 1];
            let l = self.expr(&b.left)?;
            let r = self.scalar(&b.right)?;
            if let Some(c) = place_call(&b.left) {
                // the place is computed once: r first, then the place
                let cc = self.expr(c)?;
                if kind(&lt) == K::Bool || l.matches(&cc).count() != 1 {
                    return Err("compound assignment to a computed place".into());
                }
                let (rv, pv) = (self.t("r"), self.t("p"));
                let l = l.replacen(&cc, &pv, 1);
                return Ok(format!("{{\nlet {}: {} = {};\nlet {} = {};\n{} = {} {} {};\n}}", rv, lt, r, pv, cc, l, par_unary(&l), o, rv));
            }
            if let (K::Bool, Some(f)) = (kind(&lt), bool_op(o)) {
                return Ok(format!("{} = {}({}, {})", l, f, l, r));
            }
            return Ok(format!("{} = {} {} {}", l, par_unary(&l), o, par(&r)));
        }
        let l = self.scalar(&b.left)?;
        let r = self.scalar(&b.right)?;
        if let (K::Bool, Some(f)) = (kind(&lt), bool_op(op)) {
            return Ok(format!("{}({}, {})", f, l, r));
        }
        Ok(format!("({} {} {})", par(&l), op, par(&r)))
    }

    fn eq(&mut self, a: &syn::Expr, b: &syn::Expr) -> R<String> {
        let ta = self.ty(a)?;
        let tb = self.ty(b)?;
        match (kind(&ta), kind(&tb)) {
            (K::Int, K::Int) | (K::Bool, K::Bool) | (K::Char, K::Char) => {
                Ok(format!("({} == {})", par(&self.scalar(a)?), par(&self.scalar(b)?)))
            }
            (K::Str | K::String, K::Str | K::String) => {
                Ok(format!("v_eq_str({}, {})", self.str_of(a)?, self.str_of(b)?))
            }
            (K::Slice | K::Vec | K::Array, K::Slice | K::Vec | K::Array) => {
                let el = targs(&ta).first().cloned().unwrap_or_default();
                if !matches!(kind(&el), K::Int | K::Bool | K::Char) || el.starts_with('&') {
                    return Err(format!("== on {}", ta));
                }
                Ok(format!("v_eq_slice({}, {})", self.slice_of(a)?, self.slice_of(b)?))
            }
            (K::Opt, K::Opt) if ta == tb => {
                self.eq_ok(&targs(&ta)[0])?;
                let (n, _) = deref(&ta);
                let ca = self.expr(a)?;
                let cb = self.expr(b)?;
                let r = if n == 0 { "&" } else { "" };
                Ok(format!("v_eq({}{}, {}{})", r, par_unary(&ca), r, par_unary(&cb)))
            }
            _ if deref(&ta).1 == deref(&tb).1 => {
                self.eq_ok(&ta)?;
                let (n, _) = deref(&ta);
                let ca = self.expr(a)?;
                let cb = self.expr(b)?;
                let f = |c: String| match n {
                    0 => format!("&{}", par_unary(&c)),
                    1 => c,
                    _ => format!("{}{}", "*".repeat(n - 1), par(&c)),
                };
                Ok(format!("v_eq({}, {})", f(ca), f(cb)))
            }
            _ => Err(format!("== between {} and {}", ta, tb)),
        }
    }

    /// == is structural equality for this type
    fn eq_ok(&self, t: &str) -> R<()> {
        let (_, b) = deref(t);
        match kind(&b) {
            K::Int | K::Bool | K::Char | K::String | K::Str => Ok(()),
            K::Other => {
                if b.starts_with('(') {
                    for x in targs(&b) {
                        self.eq_ok(&x)?;
                    }
                    return Ok(());
                }
                match self.g.derives.get(&b) {
                    Some(d) if d.iter().any(|x| x == "PartialEq") => Ok(()),
                    _ => match b.as_str() {
                        "std::time::Duration" | "std::cmp::Ordering" => Ok(()),
                        _ => Err(format!("== on {}", b)),
                    },
                }
            }
            K::Opt | K::Vec | K::Array | K::Slice => {
                for x in targs(&b).iter().take(1) {
                    self.eq_ok(x)?;
                }
                Ok(())
            }
            K::Range => Ok(()),
            _ => Err(format!("== on {}", b)),
        }
    }

    fn cond(&mut self, e: &syn::Expr) -> R<String> {
        match e {
            syn::Expr::Let(l) => {
                let s = self.expr(&l.expr)?;
                let p = self.pat(&l.pat)?;
                Ok(format!("let {} = ({})", p, s))
            }
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) && has_let(e) => Err("let chain".into()),
            _ => Ok(format!("({})", self.expr(e)?)),
        }
    }

    fn if_(&mut self, i: &syn::ExprIf) -> R<String> {
        let c = self.cond(&i.cond)?;
        let t = self.block(&i.then_branch)?;
        let mut o = format!("if {} {}", c, t);
        if let Some((_, e)) = &i.else_branch {
            match &**e {
                syn::Expr::If(_) | syn::Expr::Block(_) => {
                    let x = self.expr(e)?;
                    o.push_str(&format!(" else {}", x));
                }
                _ => return Err("else".into()),
            }
        }
        Ok(o)
    }

    fn match_(&mut self, m: &syn::ExprMatch) -> R<String> {
        let st = self.ty(&m.expr)?;
        if matches!(kind(&st), K::Str | K::String) {
            return Err("match on a string".into());
        }
        let mut s = self.expr(&m.expr)?;
        // match &x with literal patterns: match on the value
        let (n, b) = deref(&st);
        if n > 0 && matches!(kind(&b), K::Int | K::Bool | K::Char) {
            s = self.scalar(&m.expr)?;
        }
        let mut o = format!("match ({}) {{\n", s);
        for a in &m.arms {
            // an arm `p | q if g` is one arm for p and one for q
            let ps = match &a.pat {
                syn::Pat::Or(o) if a.guard.is_some() => o.cases.iter().map(|c| self.pat(c)).collect::<R<Vec<_>>>()?,
                p => vec![self.pat(p)?],
            };
            let gd = match &a.guard {
                Some((_, g)) => {
                    if has_let(g) {
                        return Err("if-let guard".into());
                    }
                    format!(" if {}", self.expr(g)?)
                }
                None => String::new(),
            };
            let b = self.coerce(&a.body)?;
            let b = match b.as_str() {
                "return" | "break" | "continue" => format!("{{ {} }}", b),
                _ => b,
            };
            for p in ps {
                o.push_str(&format!("{}{} => {},\n", p, gd, b));
            }
        }
        o.push('}');
        Ok(o)
    }

    fn check_closure(&self, e: &syn::Expr) -> R<()> {
        let mut h = HasReturn(false);
        h.visit_expr(e);
        if h.0 {
            Err("return or `?` inside a closure".into())
        } else {
            Ok(())
        }
    }

    /// applies a function-valued expression (closure literal or path) to argument code
    fn apply(&mut self, f: &syn::Expr, args: &[String]) -> R<String> {
        match strip(f) {
            syn::Expr::Closure(c) => {
                self.check_closure(&c.body)?;
                if c.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                self.closure_depth += 1;
                let r = (|| {
                    let mut o = String::from("{\n");
                    for (p, a) in c.inputs.iter().zip(args) {
                        o.push_str(&self.bind(p, a)?);
                    }
                    let b = self.coerce(&c.body)?;
                    o.push_str(&b);
                    o.push_str("\n}");
                    Ok(o)
                })();
                self.closure_depth -= 1;
                r
            }
            syn::Expr::Path(_) => self.call(f, args.to_vec(), None),
            other => Err(format!("function value `{}`", short(other))),
        }
    }

    fn call(&mut self, f: &syn::Expr, args: Vec<String>, whole: Option<&syn::Expr>) -> R<String> {
        let f = strip(f);
        let syn::Expr::Path(p) = f else {
            return Err(format!("call of `{}`", short(f)));
        };
        if let Some(i) = p.path.get_ident() {
            if self.closures.contains_key(&i.to_string()) {
                return self.call_closure(&i.to_string(), args);
            }
        }
        let d = self
            .g
            .tm
            .path(&self.file, f.span())
            .ok_or_else(|| format!("unresolved call `{}`", short(f)))?;
        let ds = strip_generics(&d);
        let ft = self.ty(f).unwrap_or_default();
        let a = args.join(", ");
        match ds.as_str() {
            "std::prelude::v1::Ok" | "std::result::Result::Ok" | "core::result::Result::Ok" => {
                return Ok(format!("Ok({})", a))
            }
            "std::prelude::v1::Err" | "std::result::Result::Err" | "core::result::Result::Err" => {
                return Ok(format!("Err({})", a))
            }
            "std::prelude::v1::Some" | "std::option::Option::Some" | "core::option::Option::Some" => {
                return Ok(format!("Some({})", a))
            }
            "std::vec::Vec::new" | "std::vec::Vec::with_capacity" => {
                return Ok("Vec::new()".into())
            }
            "std::string::String::new" => return Ok("v_string_new()".into()),
            "std::collections::HashMap::new" | "std::collections::BTreeMap::new" => {
                let t = ft.rsplit("-> ").next().unwrap_or("").to_string();
                let t = t.split(" {").next().unwrap().to_string();
                let r = self.g.render_ty(&t)?;
                return Ok(format!("{}::new()", r.replacen('<', "::<", 1)));
            }
            "std::io::Cursor::new" => return Ok(format!("crate::shim::Cursor::new({})", a)),
            "alloc::io::error::new" | "std::io::Error::new" | "alloc::io::error::Error::new"
            | "std::io::error::Error::new" | "std::io::Error::other" | "alloc::io::error::Error::other"
            | "std::io::error::Error::other" => return Ok("v_io_err()".into()),
            "std::default::Default::default" | "core::default::Default::default" => {
                let i = ft.find("{<").ok_or_else(|| format!("Default of {}", ft))?;
                let inner = &ft[i + 2..];
                let j = inner.find(" as ").ok_or("Default of")?;
                let t = inner[..j].to_string();
                return self.default_code(&t);
            }
            _ => {}
        }
        if ds.ends_with("from_le_bytes") || ds.ends_with("from_be_bytes") {
            let t = ft.rsplit("-> ").next().unwrap_or("").split(" {").next().unwrap().to_string();
            return Ok(format!("v_{}_{}({})", t.trim(), ds.rsplit("::").next().unwrap(), a));
        }
        if ds == "std::convert::From::from" || ds == "std::convert::TryFrom::try_from" {
            // the target: `{<T as std::convert::From<S>>::from}`
            let i = ft.find("{<").ok_or_else(|| format!("From target of {}", ft))?;
            let inner = &ft[i + 2..];
            let j = inner.find(" as ").ok_or("From target")?;
            let target = inner[..j].to_string();
            let rest = &inner[j + 4..];
            let k = rest.find('<').ok_or("From source")?;
            let l = rest.rfind(">>::").ok_or("From source")?;
            let source = rest[k + 1..l].to_string();
            return self.from_call(&target, &source, ds.ends_with("try_from"), &a);
        }
        // local function or associated function
        let parts: Vec<&str> = ds.split("::").collect();
        if self.g.fns.contains_key(&ds) {
            self.calls.insert(ds.clone());
            return Ok(format!("crate::{}({})", ds, a));
        }
        if let Some(x) = ext_fn(&ds) {
            self.calls.insert(ds.clone());
            return Ok(format!("{}({})", x, a));
        }
        if parts.len() > 1 && self.g.types.contains(&parts[..parts.len() - 1].join("::")) {
            self.calls.insert(ds.clone());
            return Ok(format!("crate::{}({})", ds, a));
        }
        // generic impl paths such as `<impl ...>::f`
        if d.starts_with('<') || ds.is_empty() {
            let _ = whole;
        }
        let _ = p;
        Err(format!("call of {}", d))
    }

    fn from_call(&mut self, target: &str, source: &str, is_try: bool, a: &str) -> R<String> {
        if kind(target) == K::Int && deref(target).0 == 0 && (kind(source) == K::Int || kind(source) == K::Bool) {
            if is_try {
                let (x, src) = (self.t("x"), deref(source).1);
                if deref(source).0 > 0 || matches!(kind(source), K::Bool) {
                    return Err(format!("{}::try_from({})", target, source));
                }
                return Ok(format!("({{ let {x}: {src} = {a}; if ({target}::MIN as i128) <= ({x} as i128) && ({x} as i128) <= ({target}::MAX as i128) {{ Ok({x} as {target}) }} else {{ Err(v_int_err()) }} }})"));
            }
            return Ok(format!("({} as {})", par(a), target));
        }
        if target == "char" && source == "u8" && !is_try {
            return Ok(format!("({} as char)", par(a)));
        }
        let n = if is_try { "try_from" } else { "from" };
        if self.g.types.contains(target) {
            let f = format!("{}::{}_{}_{}", target, self.g.pre(), n, last_ident(source));
            self.calls.insert(f.clone());
            return Ok(format!("crate::{}({})", f, a));
        }
        if target == source {
            return Ok(a.to_string());
        }
        if target == "std::string::String" && deref(source).1 == "str" {
            return Ok(format!("v_to_string({})", a));
        }
        if let Some(t) = ext_type(target) {
            self.calls.insert(format!("{}::{}", target, n));
            return Ok(format!("{}::v_{}_{}({})", t, n, last_ident(source), a));
        }
        Err(format!("{}::{}({})", target, n, source))
    }

    fn mac(&mut self, m: &syn::Macro, e: Option<&syn::Expr>) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (full, _) = self.g.resolve(&self.mp, &[name.clone()]);
        let name = full.last().unwrap().clone();
        let parse = |m: &syn::Macro| -> R<Vec<syn::Expr>> {
            let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
            m.parse_body_with(p)
                .map(|x| x.into_iter().collect())
                .map_err(|_| format!("macro {}!", name))
        };
        match name.as_str() {
            "anyhow" => {
                // the message is dropped; its arguments must be plain values
                if let Ok(v) = parse(m) {
                    for x in &v {
                        plain_arg(x)?;
                    }
                }
                Ok("v_err()".into())
            }
            "bail" => {
                if let Ok(v) = parse(m) {
                    for x in &v {
                        plain_arg(x)?;
                    }
                }
                Ok("return Err(v_err())".into())
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Ok("Vec::new()".into());
                }
                if m.tokens.to_string().contains(';') && parse(m).is_err() {
                    return Err("vec![x; n]".into());
                }
                let v = parse(m)?;
                let c: R<Vec<String>> = v.iter().map(|x| self.coerce(x)).collect();
                Ok(format!("v_vec([{}])", c?.join(", ")))
            }
            "format" => {
                let v = parse(m)?;
                self.format(&v)
            }
            "println" | "eprintln" | "print" | "eprint" | "dbg" => {
                if let Ok(v) = parse(m) {
                    for x in &v {
                        plain_arg(x)?;
                    }
                }
                Ok("()".into())
            }
            "matches" => {
                let (sc, pt, guard) = m
                    .parse_body_with(|i: syn::parse::ParseStream| {
                        let e: syn::Expr = i.parse()?;
                        let _: syn::Token![,] = i.parse()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let mut g: Option<syn::Expr> = None;
                        if i.peek(syn::Token![if]) {
                            let _: syn::Token![if] = i.parse()?;
                            g = Some(i.parse()?);
                        }
                        let _: Option<syn::Token![,]> = i.parse()?;
                        Ok((e, p, g))
                    })
                    .map_err(|_| "matches! form".to_string())?;
                let s = self.expr(&sc)?;
                let p = self.pat(&pt)?;
                let g = match guard {
                    Some(g) => self.expr(&g)?,
                    None => "true".into(),
                };
                Ok(format!("(match ({}) {{ {} => {}, _ => false }})", s, p, g))
            }
            "assert" | "debug_assert" => {
                let v = parse(m)?;
                let c = self.expr(&v[0])?;
                Ok(format!("v_assert({})", c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let v = parse(m)?;
                let c = self.eq(&v[0], &v[1])?;
                Ok(format!("v_assert({})", c))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Ok("v_unreachable()".into()),
            _ => {
                let _ = e;
                Err(format!("macro {}!", name))
            }
        }
    }

    fn format(&mut self, v: &[syn::Expr]) -> R<String> {
        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &v[0] else {
            return Err("format string".into());
        };
        let f = s.value();
        let cs: Vec<char> = f.chars().collect();
        let mut acc = String::from("v_string_new()");
        let mut lit = String::new();
        let mut i = 0;
        let mut arg = 1;
        while i < cs.len() {
            if cs[i] == '{' {
                if i + 1 < cs.len() && cs[i + 1] == '{' {
                    lit.push('{');
                    i += 2;
                    continue;
                }
                let j = (i..cs.len()).find(|&j| cs[j] == '}').ok_or("format string")?;
                let spec: String = cs[i + 1..j].iter().collect();
                i = j + 1;
                if !lit.is_empty() {
                    acc = format!("v_str_cat({}, {:?})", acc, lit);
                    lit.clear();
                }
                let (name, fmt) = match spec.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (spec.clone(), String::new()),
                };
                let named = v[1..].iter().find_map(|a| match a {
                    syn::Expr::Assign(x) => match &*x.left {
                        syn::Expr::Path(p) if p.path.is_ident(&name) => Some((*x.right).clone()),
                        _ => None,
                    },
                    _ => None,
                });
                let piece = if let Some(e) = named {
                    self.display(&e)?
                } else if let Ok(k) = name.parse::<usize>() {
                    let e = v.get(k + 1).ok_or("format args")?.clone();
                    self.display(&e)?
                } else if name.is_empty() {
                    let e = v.get(arg).ok_or("format args")?.clone();
                    arg += 1;
                    self.display(&e)?
                } else if name.chars().all(|c| c.is_alphabetic() || c == '_') {
                    // an inline argument has no span of its own
                    let t = self
                        .locals
                        .iter()
                        .rev()
                        .find(|l| l.0 == name)
                        .map(|l| l.1.clone())
                        .ok_or("format argument")?;
                    match (kind(&t), deref(&t).0) {
                        (K::String, _) => format!("{}.as_str()", name),
                        (K::Str, 1) => name.clone(),
                        (K::Str, n) if n > 1 => format!("{}{}", "*".repeat(n - 1), name),
                        (K::Char, 0) => format!("v_char_to_string({}).as_str()", name),
                        (K::Int, n) => format!("v_int_to_string({}{} as i128).as_str()", "*".repeat(n), name),
                        _ => return Err("format argument".into()),
                    }
                } else {
                    return Err("format argument".into());
                };
                let piece = match fmt.as_str() {
                    "" => piece,
                    "0<4" => format!("v_pad_right({}, '0', 4).as_str()", piece),
                    _ => return Err(format!("format spec {}", fmt)),
                };
                acc = format!("v_str_cat({}, {})", acc, piece);
            } else if cs[i] == '}' {
                lit.push('}');
                i += 2;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        if !lit.is_empty() {
            acc = format!("v_str_cat({}, {:?})", acc, lit);
        }
        Ok(acc)
    }

    fn display(&mut self, e: &syn::Expr) -> R<String> {
        let t = self.ty(e)?;
        match kind(&t) {
            K::Str | K::String => self.str_of(e),
            K::Char => Ok(format!("v_char_to_string({}).as_str()", self.scalar(e)?)),
            K::Int => Ok(format!("v_int_to_string({} as i128).as_str()", par(&self.scalar(e)?))),
            _ => Err(format!("display of {}", t)),
        }
    }

    fn clone_ok(&self, t: &str) -> R<()> {
        let (_, b) = deref(t);
        match kind(&b) {
            K::Int | K::Bool | K::Char | K::Str | K::String | K::Range => Ok(()),
            K::Opt | K::Vec | K::Array | K::Slice => {
                for x in targs(&b).iter().take(1) {
                    self.clone_ok(x)?;
                }
                Ok(())
            }
            _ => {
                if b.starts_with('(') {
                    for x in targs(&b) {
                        self.clone_ok(&x)?;
                    }
                    return Ok(());
                }
                match self.g.derives.get(&b) {
                    Some(d) if d.iter().any(|x| x == "Clone") => Ok(()),
                    Some(_) => Err(format!("clone of {}", b)),
                    None if ext_type(&b).is_some() => Ok(()),
                    None => Err(format!("clone of {}", b)),
                }
            }
        }
    }

    fn method(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall) -> R<String> {
        let d = self
            .g
            .tm
            .call(&self.file, m.method.span())
            .ok_or_else(|| format!("unresolved method `{}`", m.method))?;
        let ds = strip_generics(&d);
        let name = m.method.to_string();
        let rt = self.ty(&m.receiver)?;
        let args: Vec<&syn::Expr> = m.args.iter().collect();

        if d.contains("option::Option") {
            return self.option(e, m, &name, &rt, &args);
        }
        if d.contains("result::Result") {
            return self.result(e, m, &name, &rt, &args);
        }
        if ds.starts_with("std::iter::Iterator") || ds.starts_with("core::iter::") || ds.contains("iter::Iterator") {
            return self.consumer(e, m, &name, &args);
        }
        if ds.starts_with("std::clone::Clone") || name == "to_owned" {
            if kind(&rt) == K::Str && deref(&rt).0 == 1 {
                let adj = self.ty(e)?;
                let s = self.str_of(&m.receiver)?;
                return Ok(if kind(&adj) == K::String { format!("v_to_string({})", s) } else { s });
            }
            let out = self.ty(e)?;
            self.clone_ok(&out)?;
            let r = self.expr(&m.receiver)?;
            let (n, _) = deref(&rt);
            let (k, _) = deref(&out);
            return Ok(match n - k.min(n) {
                0 => format!("v_clone(&{})", par_unary(&r)),
                1 => format!("v_clone({})", r),
                x => format!("v_clone({}{})", "*".repeat(x - 1), par(&r)),
            });
        }
        if ds.contains("string::ToString") || ds.contains("ToString::to_string") {
            return match kind(&rt) {
                K::Str | K::String => Ok(format!("v_to_string({})", self.str_of(&m.receiver)?)),
                K::Char => Ok(format!("v_char_to_string({})", self.scalar(&m.receiver)?)),
                K::Int => Ok(format!("v_int_to_string({} as i128)", par(&self.scalar(&m.receiver)?))),
                _ => Err(format!("to_string of {}", rt)),
            };
        }
        if ds.starts_with("bstr::") {
            let r = self.slice_of(&m.receiver)?;
            return match name.as_str() {
                "find" | "rfind" => Ok(format!("v_{}({}, {})", name, r, self.slice_of(args[0])?)),
                "find_byte" | "rfind_byte" => Ok(format!("v_{}({}, {})", name, r, self.scalar(args[0])?)),
                "contains_str" => Ok(format!("v_find({}, {}).is_some()", r, self.slice_of(args[0])?)),
                "ends_with_str" => Ok(format!("v_ends_with({}, {})", r, self.slice_of(args[0])?)),
                "starts_with_str" => Ok(format!("v_starts_with({}, {})", r, self.slice_of(args[0])?)),
                _ => Err(format!("method {}", d)),
            };
        }
        if ds.ends_with("Ord::cmp") {
            return match kind(&rt) {
                K::Int => {
                    let a = self.scalar(&m.receiver)?;
                    let b = self.scalar(args[0])?;
                    Ok(format!("v_cmp_int(({}) as i128, ({}) as i128)", a, b))
                }
                K::Str | K::String => {
                    Ok(format!("v_cmp_str({}, {})", self.str_of(&m.receiver)?, self.str_of(args[0])?))
                }
                _ => Err(format!("cmp on {}", rt)),
            };
        }
        if ds.ends_with("Ord::min") || ds.ends_with("Ord::max") || ds.ends_with("Ord::clamp") {
            if kind(&rt) != K::Int || deref(&rt).0 > 0 {
                return Err(format!("{} on {}", name, rt));
            }
            let a = self.scalar(&m.receiver)?;
            let b = self.scalar(args[0])?;
            let t = deref(&rt).1;
            let (x, y) = (self.t("a"), self.t("b"));
            return Ok(match name.as_str() {
                "min" => format!("({{ let {x}: {t} = {a}; let {y}: {t} = {b}; if {x} <= {y} {{ {x} }} else {{ {y} }} }})"),
                "max" => format!("({{ let {x}: {t} = {a}; let {y}: {t} = {b}; if {x} > {y} {{ {x} }} else {{ {y} }} }})"),
                _ => {
                    let c = self.scalar(args[1])?;
                    let z = self.t("c");
                    format!("({{ let {x}: {t} = {a}; let {y}: {t} = {b}; let {z}: {t} = {c}; v_assert({y} <= {z}); if {x} < {y} {{ {y} }} else if {x} > {z} {{ {z} }} else {{ {x} }} }})")
                }
            });
        }
        if ds.contains("cmp::Ordering") {
            let r = self.expr(&m.receiver)?;
            return match name.as_str() {
                "then" => Ok(format!("v_then({}, {})", r, self.expr(args[0])?)),
                "then_with" => {
                    let f = self.apply(args[0], &[])?;
                    Ok(format!("v_then({}, {})", r, f))
                }
                "reverse" => Ok(format!("v_reverse({})", r)),
                _ => Err(format!("method {}", d)),
            };
        }
        if ds.contains("bool::") && (name == "then" || name == "then_some") {
            let c = self.scalar(&m.receiver)?;
            return Ok(if name == "then" {
                format!("(if {} {{ Some({}) }} else {{ None }})", c, self.apply(args[0], &[])?)
            } else {
                let (x, v) = (self.t("b"), self.coerce(args[0])?);
                let y = self.t("d");
                format!("({{ let {x}: bool = {c}; let {y} = {v}; if {x} {{ Some({y}) }} else {{ None }} }})")
            });
        }
        if ds.contains("ops::RangeInclusive::contains") || ds.contains("ops::Range::contains") {
            let syn::Expr::Range(r) = strip(&m.receiver) else { return Err("range value".into()) };
            let (Some(a), Some(b)) = (&r.start, &r.end) else { return Err("open range".into()) };
            let a = self.scalar(a)?;
            let b = self.scalar(b)?;
            let x = self.scalar(args[0])?;
            let v = self.t("x");
            let xt = deref(&self.ty(args[0])?).1;
            let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
            return Ok(format!(
                "({{ let {v}: {} = {x}; {} <= {v} && {v} {op} {} }})",
                xt,
                par(&a),
                par(&b)
            ));
        }
        if ds.contains("collections::HashMap") || ds.contains("collections::BTreeMap")
            || ds.contains("hash_map") || ds.contains("btree_map")
        {
            return self.map_method(e, m, &name, &args, &d);
        }
        if ds.contains("vec::Vec::") {
            return self.vec_method(m, &name, &args, &d);
        }
        if ds.starts_with("core::slice") || ds.starts_with("std::slice") || ds.starts_with("alloc::slice") || ds.contains("array") {
            return self.slice_method(e, m, &name, &args, &d);
        }
        if ds.contains("str::") && (ds.starts_with("core::str") || ds.starts_with("std::str") || ds.starts_with("alloc::str")) {
            return self.str_method(e, m, &name, &args, &d);
        }
        if ds.contains("string::String::") {
            return match name.as_str() {
                "as_str" | "as_bytes" | "len" | "is_empty" => self.str_method(e, m, &name, &args, &d),
                "push_str" => {
                    let r = self.expr(&m.receiver)?;
                    let a = self.str_of(args[0])?;
                    Ok(format!("v_push_str(&mut {}, {})", r, a))
                }
                "push" => {
                    let r = self.expr(&m.receiver)?;
                    let a = self.scalar(args[0])?;
                    Ok(format!("v_push_char(&mut {}, {})", r, a))
                }
                _ => Err(format!("method {}", d)),
            };
        }
        if ds.contains("time::Duration") {
            let r = self.expr(&m.receiver)?;
            let a: R<Vec<String>> = args.iter().map(|x| self.coerce(x)).collect();
            return Ok(format!("{}.{}({})", par(&r), name, a?.join(", ")));
        }
        if ds.starts_with("chrono::") {
            let a: R<Vec<String>> = args.iter().map(|x| self.coerce(x)).collect();
            let a = a?;
            return match name.as_str() {
                "timestamp_opt" => Ok(format!("v_timestamp_opt({})", a.join(", "))),
                "to_utc" => Ok(format!("v_to_utc({})", self.expr(&m.receiver)?)),
                "single" | "earliest" | "latest" if ds.contains("LocalResult") => Ok(format!("{}.{}()", par(&self.expr(&m.receiver)?), name)),
                _ => Err(format!("method {}", d)),
            };
        }
        if ds.contains("num::") {
            let r = self.scalar(&m.receiver)?;
            let a: R<Vec<String>> = args.iter().map(|x| self.scalar(x)).collect();
            let t = deref(&rt).1;
            return Ok(format!("({} as {}).{}({})", par(&r), t, name, a?.join(", ")));
        }
        if ds.contains("io::Cursor") || ds.contains("io::Read") {
            let r = self.expr(&m.receiver)?;
            let a: R<Vec<String>> = args.iter().map(|x| self.expr(x)).collect();
            return Ok(format!("{}.{}({})", par(&r), name, a?.join(", ")));
        }
        if ds.ends_with("Into::into") {
            let out = self.ty(e)?;
            let a = self.expr(&m.receiver)?;
            return self.from_call(&out, &rt, false, &a);
        }
        if ds.ends_with("TryInto::try_into") {
            let out = self.ty(e)?;
            let out = targs(&out).first().cloned().unwrap_or_default();
            let a = self.expr(&m.receiver)?;
            return self.from_call(&out, &rt, true, &a);
        }
        if ds.ends_with("Extend::extend") {
            let r = self.expr(&m.receiver)?;
            if kind(&rt) != K::Vec {
                return Err("extend".into());
            }
            let p = self.pipe(args[0])?;
            return self.run(p, String::new(), String::new(), "()".into(), &mut |_fx, v, _t| {
                Ok(format!("{}.push({});\n", r, v))
            });
        }
        // method of a local type or trait
        let parts: Vec<&str> = ds.split("::").collect();
        if parts.len() > 1 && self.g.types.contains(&parts[..parts.len() - 1].join("::")) {
            self.calls.insert(ds.clone());
            let r = self.expr(&m.receiver)?;
            let a: R<Vec<String>> = args.iter().map(|x| self.coerce(x)).collect();
            return Ok(format!("{}.{}({})", par(&r), name, a?.join(", ")));
        }
        Err(format!("method {}", d))
    }

    fn option(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, rt: &str, args: &[&syn::Expr]) -> R<String> {
        let r = self.expr(&m.receiver)?;
        let v = self.t("o");
        let some = |x: String| -> String { format!("match ({r}) {{ Some({v}) => {x}, None => None }}") };
        Ok(match name {
            "is_some" | "is_none" => format!("{}.{}()", par(&r), name),
            "as_ref" => format!("{}.as_ref()", par(&r)),
            "as_deref" => {
                if targs(rt).first().map(|t| kind(t)) != Some(K::String) {
                    return Err("as_deref".into());
                }
                format!("v_opt_as_str(&{})", par_unary(&r))
            }
            "unwrap" | "expect" => format!("{}.unwrap()", par(&r)),
            "map" => some(format!("Some({})", self.apply(args[0], &[v.clone()])?)),
            "and_then" => some(self.apply(args[0], &[v.clone()])?),
            "filter" => {
                let c = self.apply(args[0], &[format!("&{}", v)])?;
                format!("match ({r}) {{ Some({v}) => if {c} {{ Some({v}) }} else {{ None }}, None => None }}")
            }
            "cloned" | "copied" => {
                let t = targs(rt).first().cloned().unwrap_or_default();
                self.clone_ok(&t)?;
                some(format!("Some(v_clone({}))", v))
            }
            "unwrap_or" => {
                let d = self.coerce(args[0])?;
                let x = self.t("d");
                format!("({{ let {v} = {r}; let {x} = {d}; match {v} {{ Some(__u) => __u, None => {x} }} }})")
            }
            "unwrap_or_else" => {
                let d = self.apply(args[0], &[])?;
                format!("(match ({r}) {{ Some({v}) => {v}, None => {d} }})")
            }
            "unwrap_or_default" => {
                let t = self.ty(e)?;
                let d = self.default_code(&t)?;
                format!("(match ({r}) {{ Some({v}) => {v}, None => {d} }})")
            }
            "is_some_and" => {
                let c = self.apply(args[0], &[v.clone()])?;
                format!("(match ({r}) {{ Some({v}) => {c}, None => false }})")
            }
            "is_none_or" => {
                let c = self.apply(args[0], &[v.clone()])?;
                format!("(match ({r}) {{ Some({v}) => {c}, None => true }})")
            }
            "ok_or" => {
                let d = self.coerce(args[0])?;
                format!("(match ({r}) {{ Some({v}) => Ok({v}), None => Err({d}) }})")
            }
            "ok_or_else" => {
                let d = self.apply(args[0], &[])?;
                format!("(match ({r}) {{ Some({v}) => Ok({v}), None => Err({d}) }})")
            }
            "or" => {
                let d = self.expr(args[0])?;
                let x = self.t("d");
                format!("({{ let {v} = {r}; let {x} = {d}; match {v} {{ Some(__u) => Some(__u), None => {x} }} }})")
            }
            "or_else" => {
                let d = self.apply(args[0], &[])?;
                format!("(match ({r}) {{ Some({v}) => Some({v}), None => {d} }})")
            }
            "map_or" => {
                let d = self.coerce(args[0])?;
                let c = self.apply(args[1], &[v.clone()])?;
                let x = self.t("d");
                format!("({{ let {v}o = {r}; let {x} = {d}; match {v}o {{ Some({v}) => {c}, None => {x} }} }})")
            }
            "map_or_else" => {
                let d = self.apply(args[0], &[])?;
                let c = self.apply(args[1], &[v.clone()])?;
                format!("(match ({r}) {{ Some({v}) => {c}, None => {d} }})")
            }
            "and" => {
                let d = self.expr(args[0])?;
                let x = self.t("d");
                format!("({{ let {v} = {r}; let {x} = {d}; match {v} {{ Some(_) => {x}, None => None }} }})")
            }
            "xor" => {
                let d = self.expr(args[0])?;
                let x = self.t("d");
                format!("({{ let {v} = {r}; let {x} = {d}; match ({v}, {x}) {{ (Some(__u), None) => Some(__u), (None, Some(__u)) => Some(__u), _ => None }} }})")
            }
            _ => return Err(format!("Option::{}", name)),
        })
    }

    fn result(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, _rt: &str, args: &[&syn::Expr]) -> R<String> {
        let r = self.expr(&m.receiver)?;
        let v = self.t("o");
        let x = self.t("e");
        Ok(match name {
            "is_ok" | "is_err" => format!("{}.{}()", par(&r), name),
            "unwrap" | "expect" => format!("{}.unwrap()", par(&r)),
            "ok" => format!("(match ({r}) {{ Ok({v}) => Some({v}), Err({x}) => None }})"),
            "map" => {
                let c = self.apply(args[0], &[v.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => Ok({c}), Err({x}) => Err({x}) }})")
            }
            "map_err" => {
                let c = self.apply(args[0], &[x.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => Ok({v}), Err({x}) => Err({c}) }})")
            }
            "and_then" => {
                let c = self.apply(args[0], &[v.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => {c}, Err({x}) => Err({x}) }})")
            }
            "or_else" => {
                let c = self.apply(args[0], &[x.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => Ok({v}), Err({x}) => {c} }})")
            }
            "unwrap_or" => {
                let d = self.coerce(args[0])?;
                let y = self.t("d");
                format!("({{ let {v}r = {r}; let {y} = {d}; match {v}r {{ Ok({v}) => {v}, Err({x}) => {y} }} }})")
            }
            "unwrap_or_else" => {
                let c = self.apply(args[0], &[x.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => {v}, Err({x}) => {c} }})")
            }
            "unwrap_or_default" => {
                let t = self.ty(e)?;
                let d = self.default_code(&t)?;
                format!("(match ({r}) {{ Ok({v}) => {v}, Err({x}) => {d} }})")
            }
            "is_ok_and" => {
                let c = self.apply(args[0], &[v.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => {c}, Err({x}) => false }})")
            }
            "map_or" => {
                let d = self.coerce(args[0])?;
                let c = self.apply(args[1], &[v.clone()])?;
                let y = self.t("d");
                format!("({{ let {v}r = {r}; let {y} = {d}; match {v}r {{ Ok({v}) => {c}, Err({x}) => {y} }} }})")
            }
            "map_or_else" => {
                let d = self.apply(args[0], &[x.clone()])?;
                let c = self.apply(args[1], &[v.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => {c}, Err({x}) => {d} }})")
            }
            "err" => format!("(match ({r}) {{ Ok({v}) => None, Err({x}) => Some({x}) }})"),
            "is_err_and" => {
                let c = self.apply(args[0], &[x.clone()])?;
                format!("(match ({r}) {{ Ok({v}) => false, Err({x}) => {c} }})")
            }
            "or" => {
                let d = self.expr(args[0])?;
                let y = self.t("d");
                format!("({{ let {v}r = {r}; let {y} = {d}; match {v}r {{ Ok({v}) => Ok({v}), Err({x}) => {y} }} }})")
            }
            _ => return Err(format!("Result::{}", name)),
        })
    }

    fn default_code(&mut self, t: &str) -> R<String> {
        let (n, b) = deref(t);
        if n == 1 && kind(&b) == K::Slice {
            return Ok(format!("v_empty_slice::<{}>()", self.g.render_ty(&targs(&b)[0])?));
        }
        if n == 1 && kind(&b) == K::Str {
            return Ok("\"\"".into());
        }
        let r = self.g.render_ty(t)?;
        self.g
            .default_of(&r)
            .map(|x| x.0)
            .ok_or_else(|| format!("default of {}", t))
    }

    fn map_method(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, args: &[&syn::Expr], d: &str) -> R<String> {
        if name == "or_insert" || name == "or_default" || name == "or_insert_with" {
            let syn::Expr::MethodCall(en) = strip(&m.receiver) else { return Err("entry value".into()) };
            if en.method != "entry" {
                return Err(format!("entry().{}()", en.method));
            }
            let mapc = self.expr(&en.receiver)?;
            let k = self.coerce(&en.args[0])?;
            let v = match name {
                "or_insert" => self.coerce(args[0])?,
                "or_insert_with" => self.apply(args[0], &[])?,
                _ => {
                    let t = self.ty(e)?;
                    self.default_code(&deref(&t).1)?
                }
            };
            return Ok(format!("{}.v_slot({}, {})", par(&mapc), k, v));
        }
        let r = self.expr(&m.receiver)?;
        let a: R<Vec<String>> = args.iter().map(|x| self.expr(x)).collect();
        let a = a?;
        match name {
            "get" if matches!(kind(&deref(&self.ty(args[0])?).1), K::Str) => Ok(format!("{}.v_get_str({})", par(&r), self.str_of(args[0])?)),
            "insert" | "get" | "contains_key" | "len" | "is_empty" => {
                Ok(format!("{}.{}({})", par(&r), name, a.join(", ")))
            }
            _ => Err(format!("method {}", d)),
        }
    }

    fn vec_method(&mut self, m: &syn::ExprMethodCall, name: &str, args: &[&syn::Expr], d: &str) -> R<String> {
        match name {
            "len" | "is_empty" => {
                let r = self.expr(&m.receiver)?;
                Ok(if name == "len" { format!("{}.len()", par(&r)) } else { format!("({}.len() == 0)", par(&r)) })
            }
            "as_slice" => self.slice_of(&m.receiver),
            "push" => {
                let r = self.expr(&m.receiver)?;
                let a = self.coerce(args[0])?;
                Ok(format!("{}.push({})", par(&r), a))
            }
            "pop" | "clear" => {
                let r = self.expr(&m.receiver)?;
                Ok(format!("{}.{}()", par(&r), name))
            }
            "truncate" => {
                let r = self.expr(&m.receiver)?;
                let a = self.scalar(args[0])?;
                Ok(format!("{}.truncate({})", par(&r), a))
            }
            "extend_from_slice" => {
                let r = self.expr(&m.receiver)?;
                let a = self.slice_of(args[0])?;
                Ok(format!("v_extend(&mut {}, {})", r, a))
            }
            "dedup" => {
                let t = self.ty(&m.receiver)?;
                self.eq_ok(&targs(&t)[0])?;
                let r = self.expr(&m.receiver)?;
                Ok(format!("v_dedup(&mut {})", r))
            }
            "append" => {
                let r = self.expr(&m.receiver)?;
                let a = self.expr(args[0])?;
                Ok(format!("v_append(&mut {}, {})", r, a))
            }
            "split_off" => {
                let r = self.expr(&m.receiver)?;
                let a = self.scalar(args[0])?;
                Ok(format!("v_split_off(&mut {}, {})", r, a))
            }
            "reserve" | "shrink_to_fit" => Ok("()".into()),
            _ => Err(format!("method {}", d)),
        }
    }

    fn slice_method(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, args: &[&syn::Expr], d: &str) -> R<String> {
        match name {
            "len" => Ok(format!("{}.len()", par(&self.slice_of(&m.receiver)?))),
            "is_empty" => Ok(format!("({}.len() == 0)", par(&self.slice_of(&m.receiver)?))),
            "to_vec" => {
                let t = self.ty(&m.receiver)?;
                self.clone_ok(&t)?;
                Ok(format!("v_to_vec({})", self.slice_of(&m.receiver)?))
            }
            "contains" => {
                let t = self.ty(&m.receiver)?;
                let el = targs(&t)[0].clone();
                let s = self.slice_of(&m.receiver)?;
                match kind(&el) {
                    K::Str | K::String => {
                        let n = deref(&el).0;
                        // argument is &El
                        let a = self.expr(args[0])?;
                        let f = if kind(&el) == K::String { "v_contains_string" } else { "v_contains_str" };
                        let _ = n;
                        Ok(format!("{}({}, {})", f, s, a))
                    }
                    K::Int | K::Char | K::Bool => {
                        self.eq_ok(&el)?;
                        let a = self.expr(args[0])?;
                        Ok(format!("v_contains({}, {})", s, a))
                    }
                    _ => {
                        self.eq_ok(&el)?;
                        let a = self.expr(args[0])?;
                        Ok(format!("v_contains({}, {})", s, a))
                    }
                }
            }
            "starts_with" | "ends_with" => {
                let t = self.ty(&m.receiver)?;
                if kind(&targs(&t)[0]) != K::Int {
                    return Err(format!("{} on {}", name, t));
                }
                Ok(format!("v_{}({}, {})", name, self.slice_of(&m.receiver)?, self.slice_of(args[0])?))
            }
            "strip_prefix" | "strip_suffix" => {
                let t = self.ty(&m.receiver)?;
                let n = self.ty(args[0])?;
                if kind(&targs(&t)[0]) != K::Int || !matches!(kind(&deref(&n).1), K::Array | K::Slice | K::Vec) {
                    return Err(format!("{} on {}", name, t));
                }
                Ok(format!("v_{}({}, {})", name, self.slice_of(&m.receiver)?, self.slice_of(args[0])?))
            }
            "first" | "last" => Ok(format!("v_{}({})", name, self.slice_of(&m.receiver)?)),
            "get" => {
                let it = self.ty(args[0])?;
                let s = self.slice_of(&m.receiver)?;
                if is_int(&it) {
                    return Ok(format!("v_get({}, {})", s, self.scalar(args[0])?));
                }
                let (a, b) = self.range(args[0])?;
                Ok(match (a, b) {
                    (Some(a), Some(b)) => format!("v_get_range({}, {}, {})", s, a, b),
                    (None, Some(b)) => format!("v_get_range({}, 0, {})", s, b),
                    (Some(a), None) => format!("v_get_from({}, {})", s, a),
                    (None, None) => format!("Some({})", s),
                })
            }
            "concat" => {
                let out = self.ty(e)?;
                if kind(&out) != K::Vec {
                    return Err("concat of strings".into());
                }
                Ok(format!("v_concat({})", self.slice_of(&m.receiver)?))
            }
            "sort_by" => self.sort_by(m, args[0], false),
            "sort_by_key" | "sort_by_cached_key" => self.sort_by(m, args[0], true),
            "as_slice" => self.slice_of(&m.receiver),
            "split_at" => Ok(format!("v_split_at({}, {})", self.slice_of(&m.receiver)?, self.scalar(args[0])?)),
            _ => Err(format!("method {}", d)),
        }
    }

    fn str_method(&mut self, _e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, args: &[&syn::Expr], d: &str) -> R<String> {
        // "literal".len() is a constant
        if name == "len" {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = strip(&m.receiver) {
                return Ok(format!("{}", s.value().len()));
            }
        }
        let s = self.str_of(&m.receiver)?;
        let needle = |fx: &mut Self, e: &syn::Expr| -> R<(bool, String)> {
            let t = fx.ty(e)?;
            match kind(&t) {
                K::Char if deref(&t).0 == 0 => Ok((true, fx.expr(e)?)),
                K::Str | K::String => Ok((false, fx.str_of(e)?)),
                _ => Err(format!("str pattern {}", t)),
            }
        };
        match name {
            "len" => Ok(format!("v_str_len({})", s)),
            "is_empty" => Ok(format!("v_str_is_empty({})", s)),
            "as_str" => Ok(s),
            "as_bytes" => Ok(format!("v_str_bytes({})", s)),
            "trim_end" | "trim" | "trim_start" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" => Ok(format!("v_str_{}({})", name, s)),
            "find" | "contains" | "starts_with" | "ends_with" | "split_once" | "trim_end_matches" | "trim_start_matches" | "trim_matches" | "strip_suffix" | "strip_prefix" | "rfind" | "rsplit_once" => {
                let (ch, n) = needle(self, args[0])?;
                Ok(format!("v_str_{}{}({}, {})", name, if ch { "_char" } else { "" }, s, n))
            }
            "eq_ignore_ascii_case" => Ok(format!("v_str_eq_ignore_ascii_case({}, {})", s, self.str_of(args[0])?)),
            "is_char_boundary" => Ok(format!("v_str_is_boundary({}, {})", s, self.scalar(args[0])?)),
            "split_at" => Ok(format!("v_str_split_at({}, {})", s, self.scalar(args[0])?)),
            "replace" => {
                let (ch, n) = needle(self, args[0])?;
                let w = self.str_of(args[1])?;
                Ok(format!("v_str_replace{}({}, {}, {})", if ch { "_char" } else { "" }, s, n, w))
            }
            "get" => {
                let (a, b) = self.range(args[0])?;
                Ok(match (a, b) {
                    (Some(a), Some(b)) => format!("v_str_get({}, {}, {})", s, a, b),
                    (None, Some(b)) => format!("v_str_get_to({}, {})", s, b),
                    (Some(a), None) => format!("v_str_get_from({}, {})", s, a),
                    (None, None) => format!("Some({})", s),
                })
            }
            "parse" => {
                let t = self.ty(_e)?;
                let t = targs(&t).first().cloned().unwrap_or_default();
                Ok(format!("v_str_parse_{}({})", t, s))
            }
            _ => Err(format!("method {}", d)),
        }
    }

    fn sort_by(&mut self, m: &syn::ExprMethodCall, f: &syn::Expr, keyed: bool) -> R<String> {
        let recv = self.expr(&m.receiver)?;
        let rt = self.ty(&m.receiver)?;
        let el = targs(&rt)[0].clone();
        let elt = self.g.render_ty(&el)?;
        let n = self.ncmp;
        self.ncmp += 1;
        // the comparator: a closure literal, a function, or a call of a function returning a closure
        let (cl, mp, file): (syn::Expr, String, String) = match strip(f) {
            syn::Expr::Closure(_) | syn::Expr::Path(_) => (f.clone(), self.mp.clone(), self.file.clone()),
            syn::Expr::Call(c) if c.args.is_empty() => {
                let d = self
                    .g
                    .tm
                    .path(&self.file, strip(&c.func).span())
                    .ok_or("comparator")?;
                let ds = strip_generics(&d);
                let (mp, file, item) = self.g.fns.get(&ds).cloned().ok_or("comparator")?;
                let [syn::Stmt::Expr(b, None)] = &item.block.stmts[..] else { return Err("comparator body".into()) };
                (b.clone(), mp, file)
            }
            _ => return Err("comparator".into()),
        };
        let spec = self.c.as_ref().and_then(|c| c.cmp.get(&n).cloned());
        let save = (
            std::mem::replace(&mut self.mp, mp),
            std::mem::replace(&mut self.file, file),
        );
        let body = if keyed {
            self.cmp_keys(&cl)
        } else {
            self.apply(&cl, &["__p".into(), "__q".into()])
        };
        self.mp = save.0;
        self.file = save.1;
        let body = body?;
        let base = self.key.rsplit("::").next().unwrap().to_string();
        let cname = format!("{}__cmp{}", base, n);
        let ens = match &spec {
            Some(s) => format!(
                "    ensures\n        ord_int(r) == {}(*__p, *__q), //@L {} {} cmp{}\n",
                s.split_whitespace().next().unwrap(),
                s.split_whitespace().nth(1).unwrap_or("C01"),
                self.key,
                n
            ),
            None => String::new(),
        };
        let proof = self.c.as_ref().and_then(|c| c.cmp_proof.get(&n).cloned()).unwrap_or_default();
        self.extra.push_str(&format!(
            "// @FN {}#cmp{}\npub fn {}(__p: &{}, __q: &{}) -> (r: crate::shim::Ordering)\n{}{{\n{}{}\n}}\n// @ENDFN\n",
            self.key, n, cname, elt, elt, ens, proof, body
        ));
        let sp = spec.map(|s| s.split_whitespace().next().unwrap().to_string());
        Ok(match sp {
            Some(s) => format!(
                "v_sort_by(&mut {}, Ghost(|__x: {}, __y: {}| {}(__x, __y)))",
                recv, elt, elt, s
            ),
            None => format!("v_sort_unknown(&mut {})", recv),
        })
    }

    /// the comparison of two elements by a key: `|x| key`
    fn cmp_keys(&mut self, f: &syn::Expr) -> R<String> {
        let syn::Expr::Closure(c) = strip(f) else { return Err("sort key".into()) };
        let part = |e: &syn::Expr| -> syn::Expr {
            let mut c = c.clone();
            c.body = Box::new(e.clone());
            syn::Expr::Closure(c)
        };
        let e = match strip(&c.body) {
            syn::Expr::Block(b) => match &b.block.stmts[..] {
                [syn::Stmt::Expr(e, None)] => strip(e),
                _ => strip(&c.body),
            },
            e => e,
        };
        match e {
            syn::Expr::Tuple(t) => {
                let mut o = String::new();
                for x in t.elems.iter().rev() {
                    let one = self.cmp_keys(&part(x))?;
                    o = if o.is_empty() { one } else { format!("v_then({}, {})", one, o) };
                }
                Ok(o)
            }
            syn::Expr::Call(k)
                if k.args.len() == 1 && self.g.tm.path(&self.file, strip(&k.func).span()).is_some_and(|d| d.ends_with("cmp::Reverse")) =>
            {
                let one = self.cmp_keys(&part(&k.args[0]))?;
                Ok(format!("v_reverse({})", one))
            }
            e => {
                let t = self.ty(e)?;
                let a = self.apply(&part(e), &["__p".into()])?;
                let b = self.apply(&part(e), &["__q".into()])?;
                match (kind(&t), deref(&t).0) {
                    (K::Int, 0) => Ok(format!("v_cmp_int(({}) as i128, ({}) as i128)", a, b)),
                    (K::String, 0) => Ok(format!("({{ let __a = {}; let __b = {}; v_cmp_str(__a.as_str(), __b.as_str()) }})", a, b)),
                    _ => Err(format!("sort key {}", t)),
                }
            }
        }
    }

    // ------------------------------------------------------------------ iterators

    /// `x.iter()` or `&x` over a sequence: its slice and element type
    fn ref_source(&mut self, e: &syn::Expr) -> R<(String, String)> {
        let e0 = strip(e);
        let inner = match e0 {
            syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => &*m.receiver,
            syn::Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                let (a, ta) = self.ref_source(&m.receiver)?;
                let (b, tb) = self.ref_source(&m.args[0])?;
                if ta != tb {
                    return Err("chain of different items".into());
                }
                return Ok((format!("v_chain({}, {}).as_slice()", a, b), ta));
            }
            syn::Expr::MethodCall(_) => return Err("chained iterator".into()),
            e => {
                if deref(&self.ty(e)?).0 != 1 {
                    return Err("chained iterator".into());
                }
                e
            }
        };
        let t = self.ty(inner)?;
        if !matches!(kind(&t), K::Vec | K::Slice | K::Array) {
            return Err("chained iterator".into());
        }
        Ok((self.slice_of(inner)?, targs(&deref(&t).1)[0].clone()))
    }

    fn pipe<'a>(&mut self, e: &'a syn::Expr) -> R<Pipe<'a>> {
        let e0 = strip(e);
        let t = self.ty(e0)?;
        if let syn::Expr::MethodCall(m) = e0 {
            let d = self.g.tm.call(&self.file, m.method.span()).unwrap_or_default();
            let ds = strip_generics(&d);
            let name = m.method.to_string();
            if name == "chain" && ds.contains("iter::") {
                let (a, ta) = self.ref_source(&m.receiver)?;
                let (b, tb) = self.ref_source(m.args.first().ok_or("chain")?)?;
                if ta != tb {
                    return Err("chain of different items".into());
                }
                return Ok(Pipe { src: format!("v_chain({}, {})", a, b), elem: SrcElem::Ref, item_ty: format!("&{}", ta), ops: vec![], total: None });
            }
            if ds.contains("iter::Iterator") || ds.contains("iter::traits") {
                let mut p = self.pipe(&m.receiver)?;
                let a = m.args.first();
                match name.as_str() {
                    "map" => p.ops.push(Op::Map(a.unwrap())),
                    "filter" => p.ops.push(Op::Filter(a.unwrap())),
                    "filter_map" => p.ops.push(Op::FilterMap(a.unwrap())),
                    "take_while" => p.ops.push(Op::TakeWhile(a.unwrap())),
                    "enumerate" => p.ops.push(Op::Enumerate),
                    "cloned" => p.ops.push(Op::Cloned),
                    "copied" => p.ops.push(Op::Copied),
                    "flatten" => p.ops.push(Op::Flatten),
                    "flat_map" => {
                        p.ops.push(Op::Map(a.unwrap()));
                        p.ops.push(Op::Flatten);
                    }
                    "take" => p.ops.push(Op::Take(a.unwrap())),
                    "skip" => p.ops.push(Op::Skip(a.unwrap())),
                    "rev" => {
                        if !p.ops.is_empty() {
                            return Err("rev after an adapter".into());
                        }
                        p.ops.push(Op::Rev)
                    }
                    "into_iter" | "by_ref" => {}
                    _ => return Err(format!("iterator adapter {}", name)),
                }
                return Ok(p);
            }
            let rt = self.ty(&m.receiver)?;
            let mk = |src: String, elem: SrcElem, item_ty: String| Pipe { src, elem, item_ty, ops: vec![], total: None };
            match (name.as_str(), kind(&rt)) {
                ("iter", K::Vec | K::Slice | K::Array) => {
                    let el = targs(&rt)[0].clone();
                    let src = match kind(&rt) {
                        K::Array if deref(&rt).0 == 0 => self.expr(&m.receiver)?,
                        // a temporary is bound to the source variable itself
                        K::Vec if deref(&rt).0 == 0 && !is_place(&m.receiver) => self.expr(&m.receiver)?,
                        _ => self.slice_of(&m.receiver)?,
                    };
                    return Ok(mk(src, SrcElem::Ref, format!("&{}", el)));
                }
                ("into_iter", K::Vec | K::Array) if deref(&rt).0 == 0 => {
                    let el = targs(&rt)[0].clone();
                    let src = if kind(&rt) == K::Array {
                        format!("v_vec({})", self.expr(&m.receiver)?)
                    } else {
                        self.expr(&m.receiver)?
                    };
                    return Ok(mk(src, SrcElem::Move, el));
                }
                ("into_iter", K::Vec | K::Slice | K::Array) => {
                    let el = targs(&rt)[0].clone();
                    return Ok(mk(self.slice_of(&m.receiver)?, SrcElem::Ref, format!("&{}", el)));
                }
                ("iter" | "into_iter", K::HashMap | K::BTreeMap) => {
                    let a = targs(&rt);
                    let r = self.expr(&m.receiver)?;
                    return Ok(mk(
                        format!("{}.v_entries()", par(&r)),
                        SrcElem::Copy,
                        format!("(&{}, &{})", a[0], a[1]),
                    ));
                }
                ("values", K::HashMap | K::BTreeMap) => {
                    let a = targs(&rt);
                    let r = self.expr(&m.receiver)?;
                    return Ok(mk(format!("{}.v_values()", par(&r)), SrcElem::Copy, format!("&{}", a[1])));
                }
                ("keys", K::HashMap | K::BTreeMap) => {
                    let a = targs(&rt);
                    let r = self.expr(&m.receiver)?;
                    return Ok(mk(format!("{}.v_keys()", par(&r)), SrcElem::Copy, format!("&{}", a[0])));
                }
                ("chars", K::Str | K::String) => {
                    let s = self.str_of(&m.receiver)?;
                    return Ok(mk(format!("v_str_chars({})", s), SrcElem::Copy, "char".into()));
                }
                ("split", K::Str | K::String) => {
                    let s = self.str_of(&m.receiver)?;
                    let a = m.args.first().ok_or("split")?;
                    let at = self.ty(a)?;
                    let code = match (kind(&at), deref(&at).0) {
                        (K::Char, 0) => format!("v_str_split_char({}, {})", s, self.expr(a)?),
                        _ => return Err(format!("split at {}", at)),
                    };
                    return Ok(mk(code, SrcElem::Copy, "&str".into()));
                }
                ("bytes", K::Str | K::String) => {
                    let s = self.str_of(&m.receiver)?;
                    return Ok(mk(format!("v_to_vec(v_str_bytes({}))", s), SrcElem::Copy, "u8".into()));
                }
                ("into_values", K::HashMap | K::BTreeMap) => {
                    let a = targs(&rt);
                    let r = self.expr(&m.receiver)?;
                    return Ok(mk(format!("{}.v_into_values()", par(&r)), SrcElem::Move, a[1].clone()));
                }
                _ => {}
            }
        }
        if let syn::Expr::Path(p) = e0 {
            let v = p.path.segments.last().unwrap().ident.to_string();
            if p.path.segments.len() == 1 && is_iterator(&t) {
                if let Some(i) = self.iters.get(&v).cloned() {
                    return Ok(Pipe { src: format!("v_iter_rest({})", v), elem: SrcElem::Move, item_ty: i, ops: vec![], total: None });
                }
            }
        }
        // plain IntoIterator expressions
        let mk = |src: String, elem: SrcElem, item_ty: String| Pipe { src, elem, item_ty, ops: vec![], total: None };
        let (n, b) = deref(&t);
        match kind(&b) {
            K::Vec if n == 0 => Ok(mk(self.expr(e0)?, SrcElem::Move, targs(&b)[0].clone())),
            K::Array if n == 0 => Ok(mk(format!("v_vec({})", self.expr(e0)?), SrcElem::Move, targs(&b)[0].clone())),
            K::Vec | K::Array | K::Slice if n == 1 && !t.starts_with("&mut") => {
                Ok(mk(self.slice_of(e0)?, SrcElem::Ref, format!("&{}", targs(&b)[0])))
            }
            K::HashMap | K::BTreeMap if n == 1 && !t.starts_with("&mut") => {
                let a = targs(&b);
                let inner = if let syn::Expr::Reference(r) = e0 { self.expr(&r.expr)? } else { self.expr(e0)? };
                Ok(mk(format!("{}.v_entries()", par(&inner)), SrcElem::Copy, format!("(&{}, &{})", a[0], a[1])))
            }
            K::Range | K::RangeIncl => {
                let (a, bb) = self.range(e0)?;
                let (Some(a), Some(bb)) = (a, bb) else { return Err("open range".into()) };
                let it = targs(&b)[0].clone();
                Ok(mk(String::new(), SrcElem::Range(a, bb), it))
            }
            K::Opt if n == 0 => Err("Option as an iterator".into()),
            _ => Err(format!("iterator over {}", t)),
        }
    }

    fn clauses(&mut self, n: usize, auto_inv: &[String], auto_dec: Option<String>) -> String {
        let c = self.c.as_ref().and_then(|c| c.loops.get(&n).cloned()).unwrap_or_default();
        let mut o = String::from("\n");
        let key = self.key.clone();
        let mut sec = |w: &str, auto: &[String], cl: &Vec<Clause>| {
            if auto.is_empty() && cl.is_empty() {
                return;
            }
            o.push_str(&format!("    {}\n", w));
            for a in auto {
                o.push_str(&format!("        {}, //@L C01 {} auto loop{}\n", a, key, n));
            }
            for (i, x) in cl.iter().enumerate() {
                o.push_str(&clause_line(&x.text, x, &format!("{} loop{} {} #{}", key, n, w, i)));
            }
        };
        sec("invariant_except_break", &[], &c.inv_xb);
        sec("invariant", auto_inv, &c.inv);
        sec("ensures", &[], &c.ensures);
        let dec = if !c.decreases.is_empty() { Some(c.decreases.clone()) } else { auto_dec };
        if let Some(d) = dec {
            o.push_str(&format!("    decreases {}, //@L C01 {} loop{} decreases\n", d, self.key, n));
        }
        o
    }

    fn loop_proofs(&self, n: usize) -> (String, String, String) {
        match self.c.as_ref().and_then(|c| c.loops.get(&n)) {
            Some(l) => (
                l.proof_before.clone(),
                self.mark(&format!("loop{} body", n)) + &l.proof_body,
                self.mark(&format!("loop{} after", n)) + &l.proof_after,
            ),
            None => (String::new(), self.mark(&format!("loop{} body", n)), self.mark(&format!("loop{} after", n))),
        }
    }

    /// a claim that must NOT be provable (only when asked for): shows that the place is reachable under the contracts
    fn mark(&self, place: &str) -> String {
        let Ok(only) = std::env::var("VX_MARK") else { return String::new() };
        let here = format!("{} {}", self.key, place);
        if self.c.is_none() || !only.lines().any(|l| l == self.key || l == here || l == "all") {
            return String::new();
        }
        let h = format!("{} {}", self.key, place).bytes().fold(7u64, |h, b| (h.wrapping_mul(31) + b as u64) & 0xffff_ffff);
        format!("proof {{ if crate::spec::mark() == {} {{\nassert(false); //@L MARK {} {}\n}} }}\n", h, self.key, place)
    }

    /// generates `{ init; let src..; while .. { .. inner(elem) .. }; result }`
    fn run(
        &mut self,
        p: Pipe,
        init: String,
        after: String,
        result: String,
        inner: &mut dyn FnMut(&mut Self, String, String) -> R<String>,
    ) -> R<String> {
        let n = self.nloops;
        self.nloops += 1;
        let s = format!("__s{}", n);
        let k = format!("__k{}", n);
        self.locals.push((k.clone(), "usize".into()));
        let mut o = String::from("{\n");
        o.push_str(&init);
        let mut ops = p.ops.clone();
        let (before, pbody, pafter) = self.loop_proofs(n);
        let (mut hdr, elem);
        match &p.elem {
            SrcElem::Range(a, b) => {
                let t = self.g.render_ty(&p.item_ty)?;
                let lo = format!("__lo{}", n);
                let hi = format!("__hi{}", n);
                o.push_str(&format!("let {lo}: {t} = {a};\nlet {hi}: {t} = {b};\nlet mut {k}: {t} = {lo};\n"));
                if matches!(ops.first(), Some(Op::Rev)) {
                    return Err("reversed range".into());
                }
                let inv = vec![format!("{lo} <= {k}"), format!("{k} <= {hi} || {k} == {lo}")];
                let cl = self.clauses(n, &inv, Some(format!("{hi} - {k}")));
                hdr = format!("while {k} < {hi}{cl}");
                elem = k.clone();
            }
            se => {
                o.push_str(&format!("let {s} = {};\nlet mut {k}: usize = 0;\n", p.src));
                let rev = matches!(ops.first(), Some(Op::Rev));
                let inv = vec![format!("{k} <= {s}@.len()")];
                let cl = self.clauses(n, &inv, Some(format!("{s}@.len() - {k}")));
                hdr = format!("while {k} < {s}.len(){cl}");
                let idx = if rev { format!("{s}.len() - 1 - {k}") } else { k.clone() };
                if rev {
                    ops.remove(0);
                }
                elem = match se {
                    SrcElem::Ref => format!("&{s}[{idx}]"),
                    SrcElem::Copy => format!("{s}[{idx}]"),
                    _ => format!("v_move(&{s}, {idx})"),
                };
            }
        }
        if !before.is_empty() {
            o.push_str(&before);
        }
        // counters of take/skip/enumerate
        let mut decl = String::new();
        let x0 = self.t("x");
        let mut body = String::new();
        body.push_str(&format!("let {} = {};\n{k} = {k} + 1;\n", x0, elem));
        let simple_prefix = format!("({} - 1)", k);
        let chain = self.ops(&ops, x0, p.item_ty.clone(), Some(simple_prefix), &mut decl, n, inner)?;
        body.push_str(&chain);
        // at the head of this loop nothing has stopped it yet
        for f in decl.lines().filter_map(|l| l.strip_prefix("let mut __stop")).filter_map(|l| l.split(':').next()) {
            hdr = hdr.replacen("    invariant\n", &format!("    invariant\n        !__stop{}, //@L C01 {} auto loop{}\n", f, self.key, n), 1);
        }
        o.push_str(&decl);
        o.push_str(&hdr);
        o.push_str("{\n");
        o.push_str(&pbody);
        o.push_str(&body);
        o.push_str("\n}\n");
        o.push_str(&pafter);
        o.push_str(&after);
        o.push_str(&result);
        o.push_str("\n}");
        Ok(o)
    }

    #[allow(clippy::too_many_arguments)]
    fn ops(
        &mut self,
        ops: &[Op],
        var: String,
        ty: String,
        idx: Option<String>,
        decl: &mut String,
        n: usize,
        inner: &mut dyn FnMut(&mut Self, String, String) -> R<String>,
    ) -> R<String> {
        let Some(op) = ops.first() else {
            return inner(self, var, ty);
        };
        let rest = &ops[1..];
        match op {
            Op::Map(f) => {
                let c = self.apply(f, &[var])?;
                let t = self.fn_ret_ty(f)?;
                let x = self.t("x");
                let r = self.ops(rest, x.clone(), t, idx, decl, n, inner)?;
                Ok(format!("let {} = {};\n{}", x, c, r))
            }
            Op::Filter(f) => {
                let c = self.apply(f, &[format!("&{}", var)])?;
                let r = self.ops(rest, var, ty, None, decl, n, inner)?;
                Ok(format!("if ({}) {{\n{}\n}}\n", c, r))
            }
            Op::TakeWhile(f) => {
                let c = self.apply(f, &[format!("&{}", var)])?;
                let r = self.ops(rest, var, ty, idx, decl, n, inner)?;
                Ok(format!("if !({}) {{ break; }}\n{}", c, r))
            }
            Op::FilterMap(f) => {
                let c = self.apply(f, &[var])?;
                let t = self.fn_ret_ty(f)?;
                let t = targs(&t).first().cloned().ok_or("filter_map type")?;
                let x = self.t("x");
                let r = self.ops(rest, x.clone(), t, None, decl, n, inner)?;
                Ok(format!("match ({}) {{ Some({}) => {{\n{}\n}}, None => {{}} }}\n", c, x, r))
            }
            Op::Enumerate => {
                let i = match idx {
                    Some(i) => i,
                    None => return Err("enumerate after a filter".into()),
                };
                let x = self.t("x");
                let r = self.ops(rest, x.clone(), format!("(usize, {})", ty), Some(i.clone()), decl, n, inner)?;
                Ok(format!("let {} = ({}, {});\n{}", x, i, var, r))
            }
            Op::Cloned | Op::Copied => {
                let (m, b) = deref(&ty);
                if m == 0 {
                    return Err("cloned on a value".into());
                }
                self.clone_ok(&b)?;
                let t = ty.trim_start().strip_prefix('&').unwrap_or(&ty).trim().to_string();
                let x = self.t("x");
                let r = self.ops(rest, x.clone(), t, idx, decl, n, inner)?;
                Ok(format!("let {} = v_clone({});\n{}", x, var, r))
            }
            Op::Take(e) => {
                let Some(i) = idx else { return Err("take after a filter".into()) };
                let lim = self.scalar(e)?;
                let r = self.ops(rest, var, ty, Some(i.clone()), decl, n, inner)?;
                Ok(format!("if {} >= {} {{ break; }}\n{}", i, par(&lim), r))
            }
            Op::Skip(e) => {
                let Some(i) = idx else { return Err("skip after a filter".into()) };
                let lim = self.scalar(e)?;
                let r = self.ops(rest, var, ty, None, decl, n, inner)?;
                Ok(format!("if {} >= {} {{\n{}\n}}\n", i, par(&lim), r))
            }
            Op::Rev => Err("rev".into()),
            Op::Flatten => {
                let (m, b) = deref(&ty);
                let el = targs(&b).first().cloned().ok_or("flatten")?;
                let (elem, item) = match (kind(&b), m) {
                    (K::Vec | K::Array | K::Slice, 1) => (SrcElem::Ref, format!("&{}", el)),
                    (K::Vec, 0) => (SrcElem::Move, el),
                    (K::Opt, 0) => {
                        let x = self.t("x");
                        let r = self.ops(rest, x.clone(), el, None, decl, n, inner)?;
                        return Ok(format!("match ({}) {{ Some({}) => {{\n{}\n}}, None => {{}} }}\n", var, x, r));
                    }
                    _ => return Err(format!("flatten of {}", ty)),
                };
                let src = match kind(&b) {
                    K::Slice => var,
                    _ if m == 1 => format!("{}.as_slice()", var),
                    _ => var,
                };
                let rest_v: Vec<Op> = rest.to_vec();
                let p = Pipe { src, elem, item_ty: item, ops: rest_v, total: None };
                let flag = format!("__stop{}", n);
                let c = self.run(p, String::new(), String::new(), "()".into(), inner)?;
                if c.contains("/*stop*/") {
                    // a consumer that stops early must leave both loops
                    decl.push_str(&format!("let mut {}: bool = false;\n", flag));
                    let c = c.replace("/*stop*/", &format!("{} = true; ", flag));
                    // inside those loops the flag is still down
                    let mut w = String::new();
                    for l in c.lines() {
                        if let (true, Some(i)) = (l.starts_with("        "), l.find("//@L C01 ")) {
                            if l[i..].contains(" auto loop") {
                                w.push_str(&format!("        !{}, {}\n", flag, &l[i..]));
                            }
                        }
                        w.push_str(l);
                        w.push('\n');
                    }
                    let c = w;
                    return Ok(format!("{};\nif {} {{ break; }}\n", c, flag));
                }
                Ok(format!("{};\n", c))
            }
        }
    }

    /// result type of a function-valued expression
    fn fn_ret_ty(&self, f: &syn::Expr) -> R<String> {
        match strip(f) {
            syn::Expr::Closure(c) => {
                let t = self.adj(&c.body)?;
                Ok(t)
            }
            p => {
                let t = self.ty(p)?;
                let r = t.split(" {").next().unwrap().to_string();
                let i = r.rfind("-> ").ok_or_else(|| format!("function type {}", t))?;
                Ok(r[i + 3..].trim().to_string())
            }
        }
    }

    fn consumer(&mut self, e: &syn::Expr, m: &syn::ExprMethodCall, name: &str, args: &[&syn::Expr]) -> R<String> {
        let out = self.ty(e)?;
        let n = self.nloops;
        let acc = format!("__acc{}", n);
        match name {
            "collect" => {
                let p = self.pipe(&m.receiver)?;
                match kind(&out) {
                    K::Vec => {
                        let t = self.g.render_ty(&out)?;
                        let n = self.nloops;
                        let acc = format!("__acc{}", n);
                        self.locals.push((acc.clone(), out.clone()));
                        let a = acc.clone();
                        self.run(
                            p,
                            format!("let mut {}: {} = Vec::new();\n", acc, t),
                            String::new(),
                            acc.clone(),
                            &mut |_fx, v, _t| Ok(format!("{}.push({});\n", a, v)),
                        )
                    }
                    K::HashMap | K::BTreeMap => {
                        let t = self.g.render_ty(&out)?;
                        let n = self.nloops;
                        let acc = format!("__acc{}", n);
                        self.locals.push((acc.clone(), out.clone()));
                        let a = acc.clone();
                        self.run(
                            p,
                            format!("let mut {}: {} = {}::new();\n", acc, t, t.replacen('<', "::<", 1)),
                            String::new(),
                            acc.clone(),
                            &mut |_fx, v, _t| Ok(format!("let _ = {}.insert({v}.0, {v}.1);\n", a)),
                        )
                    }
                    K::String => {
                        let n = self.nloops;
                        let acc = format!("__acc{}", n);
                        self.locals.push((acc.clone(), out.clone()));
                        let a = acc.clone();
                        self.run(
                            p,
                            format!("let mut {}: String = v_string_new();\n", acc),
                            String::new(),
                            acc.clone(),
                            &mut |_fx, v, t| match (kind(&t), deref(&t).0) {
                                (K::Char, 0) => Ok(format!("v_push_char(&mut {}, {});\n", a, v)),
                                (K::Char, 1) => Ok(format!("v_push_char(&mut {}, *{});\n", a, par(&v))),
                                (K::Str, 1) => Ok(format!("v_push_str(&mut {}, {});\n", a, v)),
                                (K::String, 0 | 1) => Ok(format!("v_push_str(&mut {}, {}.as_str());\n", a, par(&v))),
                                _ => Err(format!("collect of {}", t)),
                            },
                        )
                    }
                    _ => Err(format!("collect into {}", out)),
                }
            }
            "any" | "all" => {
                let p = self.pipe(&m.receiver)?;
                let n = self.nloops;
                let acc = format!("__acc{}", n);
                self.locals.push((acc.clone(), "bool".into()));
                let (init, hit) = if name == "any" { ("false", "true") } else { ("true", "false") };
                let a = acc.clone();
                let f = args[0];
                let neg = if name == "any" { "" } else { "!" };
                self.run(
                    p,
                    format!("let mut {}: bool = {};\n", acc, init),
                    String::new(),
                    acc.clone(),
                    &mut |fx, v, _t| {
                        let c = fx.apply(f, &[v])?;
                        Ok(format!("if {}({}) {{ {} = {}; /*stop*/break; }}\n", neg, c, a, hit))
                    },
                )
            }
            "find" | "find_map" | "position" | "next" => {
                if name == "next" {
                    // chars().next()
                    if let syn::Expr::MethodCall(inner) = strip(&m.receiver) {
                        if inner.method == "chars" {
                            let s = self.str_of(&inner.receiver)?;
                            return Ok(format!("v_first_char({})", s));
                        }
                    }
                    if let syn::Expr::Path(p) = strip(&m.receiver) {
                        let v = p.path.segments.last().unwrap().ident.to_string();
                        if p.path.segments.len() == 1 && self.iters.contains_key(&v) {
                            return Ok(format!("v_next(&mut {})", v));
                        }
                    }
                    if !matches!(strip(&m.receiver), syn::Expr::MethodCall(_)) {
                        return Err("iterator state".into());
                    }
                }
                let p = self.pipe(&m.receiver)?;
                let n = self.nloops;
                let acc = format!("__acc{}", n);
                self.locals.push((acc.clone(), out.clone()));
                let t = self.g.render_ty(&out)?;
                let a = acc.clone();
                let pos = if name == "position" {
                    if p.ops.iter().any(|o| matches!(o, Op::Filter(_) | Op::FilterMap(_) | Op::Flatten | Op::Skip(_))) {
                        return Err("position after a filter".into());
                    }
                    Some(format!("__k{} - 1", n))
                } else {
                    None
                };
                self.run(
                    p,
                    format!("let mut {}: {} = None;\n", acc, t),
                    String::new(),
                    acc.clone(),
                    &mut |fx, v, _t| match name {
                        "find" => {
                            let c = fx.apply(args[0], &[format!("&{}", v)])?;
                            Ok(format!("if ({}) {{ {} = Some({}); /*stop*/break; }}\n", c, a, v))
                        }
                        "position" => {
                            let c = fx.apply(args[0], &[v])?;
                            Ok(format!("if ({}) {{ {} = Some({}); /*stop*/break; }}\n", c, a, pos.clone().unwrap()))
                        }
                        "find_map" => {
                            let c = fx.apply(args[0], &[v])?;
                            let y = fx.t("y");
                            Ok(format!(
                                "match ({c}) {{ Some({y}) => {{ {a} = Some({y}); /*stop*/break; }}, None => {{}} }}\n"
                            ))
                        }
                        _ => Ok(format!("{} = Some({}); /*stop*/break;\n", a, v)),
                    },
                )
            }
            "last" => {
                let p = self.pipe(&m.receiver)?;
                let n = self.nloops;
                let acc = format!("__acc{}", n);
                self.locals.push((acc.clone(), out.clone()));
                let t = self.g.render_ty(&out)?;
                let a = acc.clone();
                self.run(p, format!("let mut {}: {} = None;\n", acc, t), String::new(), acc.clone(), &mut |_fx, v, _t| {
                    Ok(format!("{} = Some({});\n", a, v))
                })
            }
            "sum" | "count" => {
                let p = self.pipe(&m.receiver)?;
                if kind(&out) != K::Int {
                    return Err(format!("sum of {}", out));
                }
                let n = self.nloops;
                let acc = format!("__acc{}", n);
                self.locals.push((acc.clone(), out.clone()));
                let a = acc.clone();
                self.run(p, format!("let mut {}: {} = 0;\n", acc, out), String::new(), acc.clone(), &mut |_fx, v, t| {
                    if name == "count" {
                        return Ok(format!("{a} = {a} + 1;\n"));
                    }
                    let (m, _) = deref(&t);
                    Ok(format!("{a} = {a} + {}{v};\n", "*".repeat(m)))
                })
            }
            "fold" => {
                let p = self.pipe(&m.receiver)?;
                let n = self.nloops;
                let acc = format!("__acc{}", n);
                self.locals.push((acc.clone(), out.clone()));
                let t = self.g.render_ty(&out)?;
                let init = self.coerce(args[0])?;
                if !matches!(kind(&out), K::Int | K::Bool) {
                    return Err(format!("fold into {}", out));
                }
                let a = acc.clone();
                self.run(p, format!("let mut {}: {} = {};\n", acc, t, init), String::new(), acc.clone(), &mut |fx, v, _t| {
                    let c = fx.apply(args[1], &[a.clone(), v])?;
                    Ok(format!("{a} = {c};\n"))
                })
            }
            "for_each" => {
                let p = self.pipe(&m.receiver)?;
                self.run(p, String::new(), String::new(), "()".into(), &mut |fx, v, _t| {
                    let c = fx.apply(args[0], &[v])?;
                    Ok(format!("{};\n", c))
                })
            }
            _ => {
                let _ = acc;
                Err(format!("iterator method {}", name))
            }
        }
    }

    fn loop_stmt(&mut self, e: &syn::Expr, _lbl: Option<()>) -> R<String> {
        match e {
            syn::Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return Err("labelled loop".into());
                }
                let p = self.pipe(&f.expr)?;
                if p.ops.iter().any(|o| matches!(o, Op::Flatten)) && has_break(&f.body) {
                    return Err("break out of a flattened loop".into());
                }
                let b = &f.body;
                let pat = &f.pat;
                self.run(p, String::new(), String::new(), String::new(), &mut |fx, v, _t| {
                    let d = fx.closure_depth;
                    let bind = fx.bind(pat, &v)?;
                    let (s, l) = fx.stmts(&b.stmts)?;
                    fx.closure_depth = d;
                    Ok(format!("{}{}{}\n", bind, s, l))
                })
            }
            syn::Expr::While(w) => {
                if w.label.is_some() {
                    return Err("labelled loop".into());
                }
                let n = self.nloops;
                self.nloops += 1;
                let cl = self.clauses(n, &[], None);
                let (before, pbody, pafter) = self.loop_proofs(n);
                let c = self.cond(&w.cond)?;
                let (s, l) = self.stmts(&w.body.stmts)?;
                Ok(format!("{}while {}{}{{\n{}{}{}\n}}\n{}", before, c, cl, pbody, s, l, pafter))
            }
            syn::Expr::Loop(w) => {
                if w.label.is_some() {
                    return Err("labelled loop".into());
                }
                let n = self.nloops;
                self.nloops += 1;
                let cl = self.clauses(n, &[], None);
                let (before, pbody, pafter) = self.loop_proofs(n);
                let (s, l) = self.stmts(&w.body.stmts)?;
                Ok(format!("{}loop{}{{\n{}{}{}\n}}\n{}", before, cl, pbody, s, l, pafter))
            }
            _ => Err("loop".into()),
        }
    }
}

/// an expression that denotes a place rather than a temporary
fn is_place(e: &syn::Expr) -> bool {
    match strip(e) {
        syn::Expr::Path(_) => true,
        syn::Expr::Field(f) => is_place(&f.base),
        syn::Expr::Index(i) => is_place(&i.expr),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)),
        _ => false,
    }
}

fn par_unary(c: &str) -> String {
    // operand of a prefix operator
    if simple(c) || c.starts_with('(') || c.starts_with('[') || c.starts_with("&[") || c.starts_with('*') {
        c.to_string()
    } else if c.ends_with(')') && !c.contains(' ') {
        c.to_string()
    } else if c.chars().all(|x| x.is_alphanumeric() || "_.:[]".contains(x)) {
        c.to_string()
    } else {
        format!("({})", c)
    }
}

pub fn strip(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip(&p.expr),
        syn::Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn short(e: &syn::Expr) -> String {
    let s = quote::quote!(#e).to_string();
    s.chars().take(50).collect()
}

fn has_let(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_let(&mut self, _: &'a syn::ExprLet) {
            self.0 = true;
        }
        fn visit_block(&mut self, _: &'a syn::Block) {}
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

fn has_break(b: &syn::Block) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_block(b);
    l.0
}

fn plain_arg(e: &syn::Expr) -> R<()> {
    match strip(e) {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => Ok(()),
        syn::Expr::Field(f) => plain_arg(&f.base),
        syn::Expr::Reference(r) => plain_arg(&r.expr),
        syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "len" || m.method == "as_str") => {
            plain_arg(&m.receiver)
        }
        _ => Err("computed message argument".into()),
    }
}

/// the call that a place expression starts from: `*m.entry(k).or_insert(0)`, `f().x`
fn place_call(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Paren(p) => place_call(&p.expr),
        syn::Expr::Field(f) => place_call(&f.base),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => place_call(&u.expr),
        syn::Expr::MethodCall(_) | syn::Expr::Call(_) => Some(e),
        _ => None,
    }
}

/// the parameters of an item that is generic over lifetimes only
fn lifetimes(g: &syn::Generics) -> Option<String> {
    let mut v = vec![];
    for p in &g.params {
        match p {
            syn::GenericParam::Lifetime(l) if l.bounds.is_empty() => v.push(l.lifetime.to_string()),
            _ => return None,
        }
    }
    Some(if v.is_empty() { String::new() } else { format!("<{}>", v.join(", ")) })
}
