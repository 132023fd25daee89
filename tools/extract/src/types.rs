use std::collections::HashMap;
use std::fs;

pub fn span_key(s: proc_macro2::Span) -> String {
    let a = s.start();
    let b = s.end();
    format!("{}:{}-{}:{}", a.line, a.column, b.line, b.column)
}

pub struct TypeMap {
    ty: HashMap<(String, String), (String, String)>,
    call: HashMap<(String, String), String>,
    path: HashMap<(String, String), String>,
    pat: HashMap<(String, String), String>,
    pub alias: HashMap<(String, String), String>,
}

/// removes lifetimes from a printed type
pub fn strip_lifetimes(s: &str) -> String {
    let s = s.strip_prefix("for<").map_or(s, |r| {
        // for<'a, 'b> fn(..)
        match r.find('>') {
            Some(i) => r[i + 1..].trim_start(),
            None => s,
        }
    });
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\'' {
            let mut j = i + 1;
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            // a char literal never occurs in the types we look at
            if j < c.len() && c[j] == ',' {
                j += 1;
            }
            while j < c.len() && c[j] == ' ' {
                j += 1;
            }
            i = j;
            continue;
        }
        o.push(c[i]);
        i += 1;
    }
    o.replace("<>", "")
}

/// removes `<...>` groups: "std::option::Option::<T>::map" -> "std::option::Option::map"
pub fn strip_generics(s: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    for ch in s.chars() {
        match ch {
            '<' => d += 1,
            '>' => d -= 1,
            _ if d == 0 => o.push(ch),
            _ => {}
        }
    }
    while o.contains("::::") {
        o = o.replace("::::", "::");
    }
    o.trim_start_matches("::").to_string()
}

impl TypeMap {
    pub fn load(ps: &[&str]) -> Self {
        let mut t = TypeMap {
            ty: HashMap::new(),
            call: HashMap::new(),
            path: HashMap::new(),
            pat: HashMap::new(),
            alias: HashMap::new(),
        };
        let text: String = ps.iter().map(|p| fs::read_to_string(p).expect("typemap")).collect();
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() < 4 {
                continue;
            }
            let k = (f[1].to_string(), f[2].to_string());
            let a = strip_lifetimes(f[3]);
            let b = strip_lifetimes(f.get(4).copied().unwrap_or(""));
            match f[0] {
                "ty" => {
                    // outermost expression of a span comes first (macro-free code); keep it
                    t.ty.entry(k).or_insert((a, b));
                }
                "call" => {
                    t.call.insert(k, f[3].to_string());
                }
                "path" => {
                    t.path.insert(k, f[3].to_string());
                }
                "pat" => {
                    t.pat.entry(k).or_insert(a);
                }
                _ => {}
            }
        }
        t
    }
    fn key(&self, file: &str, s: proc_macro2::Span) -> (String, String) {
        let k = (file.to_string(), span_key(s));
        match self.alias.get(&k) {
            Some(o) => (k.0, o.clone()),
            None => k,
        }
    }
    pub fn ty(&self, file: &str, s: proc_macro2::Span) -> Option<String> {
        self.ty.get(&self.key(file, s)).map(|x| x.0.clone())
    }
    pub fn adj(&self, file: &str, s: proc_macro2::Span) -> Option<String> {
        self.ty.get(&self.key(file, s)).map(|x| x.1.clone())
    }
    pub fn call(&self, file: &str, s: proc_macro2::Span) -> Option<String> {
        self.call.get(&(file.to_string(), span_key(s))).cloned()
    }
    pub fn path(&self, file: &str, s: proc_macro2::Span) -> Option<String> {
        self.path.get(&self.key(file, s)).cloned()
    }
    pub fn pat(&self, file: &str, s: proc_macro2::Span) -> Option<String> {
        self.pat.get(&(file.to_string(), span_key(s))).cloned()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Opt,
    Res,
    Str,
    String,
    Vec,
    Slice,
    Array,
    HashMap,
    BTreeMap,
    Int,
    Bool,
    Char,
    Float,
    Range,
    RangeIncl,
    RangeFrom,
    RangeTo,
    Unit,
    Other,
}

/// strips leading references; returns (number of refs, rest)
pub fn deref(t: &str) -> (usize, String) {
    let mut s = t.trim().to_string();
    let mut n = 0;
    loop {
        if let Some(r) = s.strip_prefix("&mut ") {
            s = r.trim().to_string();
            n += 1;
        } else if let Some(r) = s.strip_prefix('&') {
            s = r.trim().to_string();
            n += 1;
        } else {
            return (n, s);
        }
    }
}

pub fn kind(t: &str) -> K {
    let (_, s) = deref(t);
    let h = s.split('<').next().unwrap().to_string();
    if s.starts_with('[') {
        return if s.contains(';') && top_semicolon(&s) { K::Array } else { K::Slice };
    }
    match h.as_str() {
        "std::option::Option" => K::Opt,
        "std::result::Result" => K::Res,
        "str" => K::Str,
        "std::string::String" => K::String,
        "std::vec::Vec" => K::Vec,
        "std::collections::HashMap" => K::HashMap,
        "std::collections::BTreeMap" => K::BTreeMap,
        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "u128"
        | "i128" => K::Int,
        "bool" => K::Bool,
        "char" => K::Char,
        "f32" | "f64" => K::Float,
        "std::ops::Range" => K::Range,
        "std::ops::RangeInclusive" => K::RangeIncl,
        "std::ops::RangeFrom" => K::RangeFrom,
        "std::ops::RangeTo" => K::RangeTo,
        "()" => K::Unit,
        _ => K::Other,
    }
}

fn top_semicolon(s: &str) -> bool {
    let mut d = 0;
    for c in s.chars() {
        match c {
            '[' | '<' | '(' => d += 1,
            ']' | '>' | ')' => d -= 1,
            ';' if d == 1 => return true,
            _ => {}
        }
    }
    false
}

/// generic arguments of the head type
pub fn targs(t: &str) -> Vec<String> {
    let (_, s) = deref(t);
    if s.starts_with('[') {
        let inner = &s[1..s.len() - 1];
        let mut d = 0;
        for (i, c) in inner.char_indices() {
            match c {
                '[' | '<' | '(' => d += 1,
                ']' | '>' | ')' => d -= 1,
                ';' if d == 0 => return vec![inner[..i].trim().into(), inner[i + 1..].trim().into()],
                _ => {}
            }
        }
        return vec![inner.trim().to_string()];
    }
    if s.starts_with('(') {
        return split_top(&s[1..s.len() - 1]);
    }
    let Some(i) = s.find('<') else { return vec![] };
    split_top(&s[i + 1..s.len() - 1])
}

pub fn split_top(s: &str) -> Vec<String> {
    let mut d = 0;
    let mut o = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        match c {
            '[' | '<' | '(' | '{' => d += 1,
            '>' if i > 0 && cs[i - 1] == '-' => {}
            ']' | '>' | ')' | '}' => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 {
            o.push(cur.trim().to_string());
            cur = String::new();
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        o.push(cur.trim().to_string());
    }
    o
}

/// the last identifier in a type, used to name From/TryFrom functions
pub fn last_ident(t: &str) -> String {
    let mut cur = String::new();
    let mut last = String::new();
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else if !cur.is_empty() {
            last = std::mem::take(&mut cur);
        }
    }
    if !cur.is_empty() {
        last = cur;
    }
    last
}
