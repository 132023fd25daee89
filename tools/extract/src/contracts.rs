use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub label: String,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct LoopC {
    pub inv: Vec<Clause>,
    pub inv_xb: Vec<Clause>, // invariant_except_break
    pub ensures: Vec<Clause>,
    pub decreases: String,
    pub proof_body: String,
    pub proof_after: String,
    pub proof_before: String,
}

#[derive(Clone, Debug, Default)]
pub struct Contract {
    pub name: String,
    pub params: Vec<String>,
    pub attrs: Vec<String>,
    pub ret: String,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub locals: BTreeMap<String, String>, // role -> type
    pub entry: String,
    pub tail: String,
    pub trait_spec: String,
    pub cmp: BTreeMap<usize, String>,
    pub cmp_proof: BTreeMap<usize, String>,
    pub used: bool,
}

pub fn load(dir: &Path) -> BTreeMap<String, Contract> {
    let mut out: BTreeMap<String, Contract> = BTreeMap::new();
    let mut files: Vec<_> = fs::read_dir(dir)
        .unwrap()
        .filter_map(|e| e.ok().map(|e| e.path()))
        .filter(|p| p.extension().is_some_and(|e| e == "vc"))
        .collect();
    files.sort();
    for f in files {
        let s = fs::read_to_string(&f).unwrap();
        let mut cur: Option<Contract> = None;
        let mut sect = String::new();
        let mut lp: usize = 0;
        for raw in s.lines() {
            let line = raw.trim_end();
            let t = line.trim_start();
            if t.starts_with("##") {
                continue;
            }
            if let Some(d) = t.strip_prefix('@') {
                let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                match w {
                    "fn" => {
                        if let Some(c) = cur.take() {
                            out.insert(c.name.clone(), c);
                        }
                        let (name, ps) = rest.split_once('(').unwrap_or((rest, ")"));
                        cur = Some(Contract {
                            name: name.trim().to_string(),
                            params: ps
                                .trim_end_matches(')')
                                .split(',')
                                .map(|x| x.trim().to_string())
                                .filter(|x| !x.is_empty())
                                .collect(),
                            ret: "r".into(),
                            ..Default::default()
                        });
                        sect.clear();
                    }
                    "ret" => cur.as_mut().unwrap().ret = rest.into(),
                    "attr" => cur.as_mut().unwrap().attrs.push(rest.into()),
                    "local" => {
                        let (a, b) = rest.split_once(':').unwrap();
                        cur.as_mut()
                            .unwrap()
                            .locals
                            .insert(a.trim().into(), b.trim().into());
                    }
                    "loop" => {
                        lp = rest.parse().unwrap();
                        cur.as_mut().unwrap().loops.entry(lp).or_default();
                        sect.clear();
                    }
                    "cmp" => {
                        let (a, b) = rest.split_once(' ').unwrap();
                        cur.as_mut().unwrap().cmp.insert(a.parse().unwrap(), b.trim().into());
                    }
                    "cmpproof" => {
                        lp = rest.parse().unwrap();
                        sect = "cmpproof".into();
                    }
                    "decreases" => {
                        // @decreases expr   (function)   or inside a loop: @ldecreases
                        cur.as_mut().unwrap().decreases = rest.into();
                    }
                    "ldecreases" => {
                        cur.as_mut().unwrap().loops.get_mut(&lp).unwrap().decreases = rest.into();
                    }
                    "requires" | "ensures" | "inv" | "invx" | "lensures" | "body" | "after" | "before" | "entry"
                    | "tail" | "trait" => {
                        sect = w.into();
                    }
                    "end" => {
                        if let Some(c) = cur.take() {
                            out.insert(c.name.clone(), c);
                        }
                        sect.clear();
                    }
                    _ => panic!("{:?}: unknown directive {}", f, w),
                }
                continue;
            }
            if t.is_empty() || cur.is_none() {
                continue;
            }
            let c = cur.as_mut().unwrap();
            if sect == "cmpproof" {
                let p = c.cmp_proof.entry(lp).or_default();
                p.push_str(line);
                p.push('\n');
                continue;
            }
            let text_target: Option<&mut String> = match sect.as_str() {
                "body" => Some(&mut c.loops.get_mut(&lp).unwrap().proof_body),
                "after" => Some(&mut c.loops.get_mut(&lp).unwrap().proof_after),
                "before" => Some(&mut c.loops.get_mut(&lp).unwrap().proof_before),
                "entry" => Some(&mut c.entry),
                "tail" => Some(&mut c.tail),
                "trait" => Some(&mut c.trait_spec),
                _ => None,
            };
            if let Some(tt) = text_target {
                tt.push_str(line);
                tt.push('\n');
                continue;
            }
            let v: &mut Vec<Clause> = match sect.as_str() {
                "requires" => &mut c.requires,
                "ensures" => &mut c.ensures,
                "inv" => &mut c.loops.get_mut(&lp).unwrap().inv,
                "invx" => &mut c.loops.get_mut(&lp).unwrap().inv_xb,
                "lensures" => &mut c.loops.get_mut(&lp).unwrap().ensures,
                other => panic!("{:?}: text outside a section ({}): {}", f, other, t),
            };
            if t.starts_with("[C") {
                let i = t.find(']').unwrap();
                v.push(Clause {
                    label: t[1..i].to_string(),
                    text: t[i + 1..].trim().to_string(),
                });
            } else {
                let l = v.last_mut().unwrap_or_else(|| panic!("{:?}: clause without label: {}", f, t));
                l.text.push(' ');
                l.text.push_str(t);
            }
        }
        if let Some(c) = cur.take() {
            out.insert(c.name.clone(), c);
        }
    }
    out
}
