//! The contracts that contracts/shim.rs assumes of std, bstr and chrono, tried against the real
//! functions over small, exhaustive domains.  Each right-hand side below is the definition of
//! shim.rs in executable form, written as recursively and as naively as it stands there.
//! Bounded, never counted as proved: it only says that the assumptions are not absurd.
use bstr::ByteSlice;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read};
use std::time::Duration;

struct T {
    n: BTreeMap<&'static str, u64>,
    bad: Vec<String>,
}
impl T {
    fn ok(&mut self, name: &'static str, b: bool, what: impl Fn() -> String) {
        *self.n.entry(name).or_default() += 1;
        if !b && self.bad.len() < 20 {
            self.bad.push(format!("{name}: {}", what()));
        }
    }
    fn eq<A: PartialEq + std::fmt::Debug>(&mut self, name: &'static str, real: A, spec: A, what: impl Fn() -> String) {
        let b = real == spec;
        self.ok(name, b, || format!("{} gives {:?}, contract {:?}", what(), real, spec));
    }
}

// ---------------------------------------------------------------- definitions of shim.rs
fn occurs<X: PartialEq>(h: &[X], n: &[X], i: i64) -> bool {
    0 <= i && i as usize + n.len() <= h.len() && (0..n.len()).all(|k| h[i as usize + k] == n[k])
}
fn find_from<X: PartialEq>(h: &[X], n: &[X], i: i64) -> Option<usize> {
    if i < 0 || i as usize + n.len() > h.len() {
        None
    } else if occurs(h, n, i) {
        Some(i as usize)
    } else {
        find_from(h, n, i + 1)
    }
}
fn find_sub<X: PartialEq>(h: &[X], n: &[X]) -> Option<usize> {
    find_from(h, n, 0)
}
fn rfind_from<X: PartialEq>(h: &[X], n: &[X], i: i64) -> Option<usize> {
    if i < 0 {
        None
    } else if occurs(h, n, i) {
        Some(i as usize)
    } else {
        rfind_from(h, n, i - 1)
    }
}
fn rfind_sub<X: PartialEq>(h: &[X], n: &[X]) -> Option<usize> {
    rfind_from(h, n, h.len() as i64 - n.len() as i64)
}
fn cat_vecs<X: Clone>(s: &[Vec<X>]) -> Vec<X> {
    match s.split_last() {
        None => vec![],
        Some((l, d)) => {
            let mut r = cat_vecs(d);
            for x in l {
                r.push(x.clone());
            }
            r
        }
    }
}
fn dedup<X: Clone + PartialEq>(s: &[X]) -> Vec<X> {
    match s.split_last() {
        None => vec![],
        Some((l, d)) => {
            let mut r = dedup(d);
            if s.len() >= 2 && s[s.len() - 2] == *l {
                r
            } else {
                r.push(l.clone());
                r
            }
        }
    }
}
fn cmp_int(a: i128, b: i128) -> i32 {
    if a < b {
        -1
    } else if a == b {
        0
    } else {
        1
    }
}
fn cmp_chars(a: &[char], b: &[char]) -> i32 {
    if a.is_empty() {
        if b.is_empty() {
            0
        } else {
            -1
        }
    } else if b.is_empty() {
        1
    } else if a[0] != b[0] {
        cmp_int(a[0] as i128, b[0] as i128)
    } else {
        cmp_chars(&a[1..], &b[1..])
    }
}
fn ord(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}
fn ins<X: Clone>(s: &[X], x: &X, cmp: &dyn Fn(&X, &X) -> i32) -> Vec<X> {
    match s.split_last() {
        None => vec![x.clone()],
        Some((l, d)) => {
            if cmp(l, x) <= 0 {
                let mut r = s.to_vec();
                r.push(x.clone());
                r
            } else {
                let mut r = ins(d, x, cmp);
                r.push(l.clone());
                r
            }
        }
    }
}
fn isort<X: Clone>(s: &[X], cmp: &dyn Fn(&X, &X) -> i32) -> Vec<X> {
    match s.split_last() {
        None => vec![],
        Some((l, d)) => ins(&isort(d, cmp), l, cmp),
    }
}
fn clen(c: char) -> usize {
    let u = c as u32;
    if u < 0x80 {
        1
    } else if u < 0x800 {
        2
    } else if u < 0x10000 {
        3
    } else {
        4
    }
}
fn boff(s: &[char], i: usize) -> usize {
    if i == 0 {
        0
    } else {
        boff(s, i - 1) + clen(s[i - 1])
    }
}
fn cidx(s: &[char], b: usize) -> Option<usize> {
    (0..=s.len()).find(|i| boff(s, *i) == b)
}
fn is_ws(c: char) -> bool {
    let u = c as u32;
    (9..=13).contains(&u)
        || u == 32
        || u == 0x85
        || u == 0xA0
        || u == 0x1680
        || (0x2000..=0x200A).contains(&u)
        || u == 0x2028
        || u == 0x2029
        || u == 0x202F
        || u == 0x205F
        || u == 0x3000
}
fn trim_end(s: &[char]) -> &[char] {
    match s.split_last() {
        Some((l, d)) if is_ws(*l) => trim_end(d),
        _ => s,
    }
}
fn trim_start(s: &[char]) -> &[char] {
    match s.split_first() {
        Some((l, d)) if is_ws(*l) => trim_start(d),
        _ => s,
    }
}
fn ends_with(s: &[char], p: &[char]) -> bool {
    occurs(s, p, s.len() as i64 - p.len() as i64)
}
fn trim_end_matches<'a>(s: &'a [char], p: &[char]) -> &'a [char] {
    if !p.is_empty() && ends_with(s, p) {
        trim_end_matches(&s[..s.len() - p.len()], p)
    } else {
        s
    }
}
fn trim_start_matches<'a>(s: &'a [char], p: &[char]) -> &'a [char] {
    if !p.is_empty() && occurs(s, p, 0) {
        trim_start_matches(&s[p.len()..], p)
    } else {
        s
    }
}
fn repl_char(s: &[char], c: char, to: &[char]) -> Vec<char> {
    match s.split_last() {
        None => vec![],
        Some((l, d)) => {
            let mut r = repl_char(d, c, to);
            if *l == c {
                r.extend(to);
            } else {
                r.push(*l);
            }
            r
        }
    }
}
fn repl_str(s: &[char], n: &[char], w: &[char]) -> Vec<char> {
    match find_sub(s, n) {
        Some(i) if !n.is_empty() => {
            let mut r = s[..i].to_vec();
            r.extend(w);
            r.extend(repl_str(&s[i + n.len()..], n, w));
            r
        }
        _ => s.to_vec(),
    }
}
fn split_at_char(s: &[char], c: char) -> Vec<Vec<char>> {
    match find_sub(s, &[c]) {
        Some(i) => {
            let mut r = vec![s[..i].to_vec()];
            r.extend(split_at_char(&s[i + 1..], c));
            r
        }
        None => vec![s.to_vec()],
    }
}
fn pad_right(s: &[char], c: char, n: usize) -> Vec<char> {
    if s.len() >= n {
        s.to_vec()
    } else {
        let mut t = s.to_vec();
        t.push(c);
        pad_right(&t, c, n)
    }
}
fn digits_val(s: &[char]) -> i128 {
    match s.split_last() {
        None => 0,
        Some((l, d)) => digits_val(d) * 10 + (*l as i128 - '0' as i128),
    }
}
fn parse_int(s: &[char], lo: i128, hi: i128) -> Option<i128> {
    let neg = !s.is_empty() && s[0] == '-';
    let b = if !s.is_empty() && (s[0] == '-' || s[0] == '+') { &s[1..] } else { s };
    if b.is_empty() || !b.iter().all(|c| ('0'..='9').contains(c)) {
        return None;
    }
    let v = if neg { -digits_val(b) } else { digits_val(b) };
    if lo <= v && v <= hi {
        Some(v)
    } else {
        None
    }
}
fn dec_digits(n: i128) -> Vec<char> {
    if n < 10 {
        vec![(b'0' + n as u8) as char]
    } else {
        let mut r = dec_digits(n / 10);
        r.push((b'0' + (n % 10) as u8) as char);
        r
    }
}
fn int_text(n: i128) -> Vec<char> {
    if n < 0 {
        let mut r = vec!['-'];
        r.extend(dec_digits(-n));
        r
    } else {
        dec_digits(n)
    }
}
type P = Option<(Vec<char>, Vec<char>)>;
fn split1(s: &[char], n: &[char]) -> P {
    find_sub(s, n).map(|i| (s[..i].to_vec(), s[i + n.len()..].to_vec()))
}
fn rsplit1(s: &[char], n: &[char]) -> P {
    rfind_sub(s, n).map(|i| (s[..i].to_vec(), s[i + n.len()..].to_vec()))
}
/// the UTF-8 encoding of one character, written from its definition
fn encc(c: char) -> Vec<u8> {
    let u = c as u32;
    let t = |k: u32| 0x80 | ((u >> (6 * k)) & 0x3f) as u8;
    match clen(c) {
        1 => vec![u as u8],
        2 => vec![0xc0 | (u >> 6) as u8, t(0)],
        3 => vec![0xe0 | (u >> 12) as u8, t(1), t(0)],
        _ => vec![0xf0 | (u >> 18) as u8, t(2), t(1), t(0)],
    }
}
fn enc(s: &[char]) -> Vec<u8> {
    s.iter().flat_map(|c| encc(*c)).collect()
}

// ---------------------------------------------------------------- domains
fn cv(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn pv(p: Option<(&str, &str)>) -> P {
    p.map(|(a, b)| (cv(a), cv(b)))
}
fn seqs<X: Clone>(al: &[X], max: usize) -> Vec<Vec<X>> {
    let mut r = vec![vec![]];
    let mut last = r.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in al {
                let mut t: Vec<X> = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        r.extend(next.iter().cloned());
        last = next;
    }
    r
}
fn strs(al: &[char], max: usize) -> Vec<String> {
    seqs(al, max).into_iter().map(|s| s.into_iter().collect()).collect()
}

fn bytes(t: &mut T) {
    let hs = seqs(&[0u8, 1, 255], 6);
    let ns = seqs(&[0u8, 1, 255], 3);
    for h in &hs {
        let h = &h[..];
        for n in &ns {
            let n = &n[..];
            let w = || format!("{h:?} {n:?}");
            t.eq("v_find", h.find(n), find_sub(h, n), w);
            t.eq("v_rfind", h.rfind(n), rfind_sub(h, n), w);
            t.eq("v_find", h.contains_str(n), find_sub(h, n).is_some(), w);
            t.eq("v_starts_with", h.starts_with(n), occurs(h, n, 0), w);
            t.eq("v_ends_with", h.ends_with(n), occurs(h, n, h.len() as i64 - n.len() as i64), w);
            t.eq("v_starts_with", h.starts_with_str(n), occurs(h, n, 0), w);
            t.eq("v_ends_with", h.ends_with_str(n), occurs(h, n, h.len() as i64 - n.len() as i64), w);
            t.eq("v_eq_slice", h == n, h.len() == n.len() && occurs(h, n, 0), w);
            let mut v = h.to_vec();
            v.extend(n);
            let mut x = h.to_vec();
            x.extend_from_slice(n);
            let c = cat_vecs(&[h.to_vec(), n.to_vec()]);
            t.eq("v_extend", &v, &c, w);
            t.eq("v_extend", &x, &c, w);
            t.eq("v_concat", [h.to_vec(), n.to_vec()].concat(), c.clone(), w);
            let (mut a, mut b) = (h.to_vec(), n.to_vec());
            a.append(&mut b);
            t.ok("v_append", a == c && b.is_empty(), w);
        }
        for b in [0u8, 1, 255, 7] {
            let w = || format!("{h:?} {b}");
            t.eq("v_find_byte", h.find_byte(b), find_sub(h, &[b]), w);
            t.eq("v_rfind_byte", h.rfind_byte(b), rfind_sub(h, &[b]), w);
            t.eq("v_contains", h.contains(&b), (0..h.len()).any(|i| h[i] == b), w);
        }
        for a in 0..8usize {
            let w = || format!("{h:?} {a}");
            t.eq("v_get", h.get(a).copied(), if a < h.len() { Some(h[a]) } else { None }, w);
            let from = |a: usize, b: usize| (a..b).map(|i| h[i]).collect::<Vec<u8>>();
            t.eq("v_get_from", h.get(a..).map(|x| x.to_vec()), if a <= h.len() { Some(from(a, h.len())) } else { None }, w);
            if a <= h.len() {
                t.eq("v_slice_to", h[..a].to_vec(), from(0, a), w);
                t.eq("v_slice_from", h[a..].to_vec(), from(a, h.len()), w);
                let (x, y) = h.split_at(a);
                t.ok("v_split_at", x == from(0, a) && y == from(a, h.len()), w);
            }
            for b in 0..8usize {
                let e = if a <= b && b <= h.len() { Some(from(a, b)) } else { None };
                t.eq("v_get_range", h.get(a..b).map(|x| x.to_vec()), e.clone(), w);
                if let Some(e) = e {
                    t.eq("v_slice", h[a..b].to_vec(), e, w);
                }
            }
        }
        let w = || format!("{h:?}");
        t.eq("v_first", h.first().copied(), if h.is_empty() { None } else { Some(h[0]) }, w);
        t.eq("v_last", h.last().copied(), if h.is_empty() { None } else { Some(h[h.len() - 1]) }, w);
        let mut v = h.to_vec();
        v.dedup();
        t.eq("v_dedup", v, dedup(h), w);
        t.eq("v_to_vec", h.to_vec(), (0..h.len()).map(|i| h[i]).collect(), w);
        t.eq("v_move", h.to_vec().into_iter().collect::<Vec<u8>>(), (0..h.len()).map(|i| h[i]).collect(), w);
        if let Ok(a) = <[u8; 3]>::try_from(h) {
            t.eq("v_vec", vec![a[0], a[1], a[2]], h.to_vec(), w);
            t.eq("v_vec", a.into_iter().collect::<Vec<u8>>(), h.to_vec(), w);
        }
        let mut v = h.to_vec();
        let m = std::mem::take(&mut v);
        t.ok("v_mem_take", m == h && v.is_empty(), w);
        let dec = std::str::from_utf8(h).ok();
        t.ok("v_from_utf8", dec.is_none_or(|s| enc(&cv(s)) == h), w);
        t.eq("v_string_from_utf8", String::from_utf8(h.to_vec()).ok(), dec.map(|s| s.to_string()), w);
    }
    for x in 0..=65535u32 {
        let b = [x as u8, (x >> 8) as u8];
        t.eq("v_u16_from_le_bytes", u16::from_le_bytes(b) as i64, b[0] as i64 + 256 * b[1] as i64, || format!("{b:?}"));
        t.eq("v_u16_from_be_bytes", u16::from_be_bytes(b) as i64, b[0] as i64 * 256 + b[1] as i64, || format!("{b:?}"));
    }
    for s in seqs(&[0u8, 1, 127, 128, 255], 4).iter().filter(|s| s.len() == 4) {
        let b = [s[0], s[1], s[2], s[3]];
        let e = b[0] as i64 + 256 * b[1] as i64 + 65536 * b[2] as i64 + 16777216 * b[3] as i64;
        t.eq("v_u32_from_le_bytes", u32::from_le_bytes(b) as i64, e, || format!("{b:?}"));
        let e = b[3] as i64 + 256 * b[2] as i64 + 65536 * b[1] as i64 + 16777216 * b[0] as i64;
        t.eq("v_u32_from_be_bytes", u32::from_be_bytes(b) as i64, e, || format!("{b:?}"));
    }
    // every pair of leading bytes through the decoder: what it accepts re-encodes to the same bytes
    for x in 0..=65535u32 {
        for tail in [&[][..], &[0x80, 0x80], &[0xbf]] {
            let mut b = vec![x as u8, (x >> 8) as u8];
            b.extend(tail);
            let r = std::str::from_utf8(&b).ok().map(|s| enc(&cv(s)));
            t.ok("v_from_utf8", r.is_none_or(|e| e == b), || format!("{b:?}"));
        }
    }
    for n in 0..7usize {
        let d: Vec<u8> = (0..n as u8).collect();
        for p in 0..9u64 {
            let mut c = Cursor::new(&d[..]);
            c.set_position(p);
            let mut buf = [9u8; 3];
            let r = c.read_exact(&mut buf);
            let ok = p as usize + 3 <= n;
            let w = || format!("{n} bytes, position {p}: {r:?} {buf:?} {}", c.position());
            let e = if ok { p + 3 } else { n as u64 };
            t.ok("Cursor::read_exact", r.is_ok() == ok && c.position() == e && (!ok || buf[..] == d[p as usize..p as usize + 3]), w);
        }
    }
}

fn text(t: &mut T) {
    // one character of every encoded length, white space, a separator, the digits' neighbours
    let al = ['a', 'b', ' ', '\\', 'é', '→'];
    let hs = strs(&al, 4);
    let ns = strs(&al, 2);
    for s in &hs {
        let c = cv(s);
        let w = || format!("{s:?}");
        t.eq("v_str_len", s.len(), boff(&c, c.len()), w);
        t.eq("v_str_is_empty", s.is_empty(), c.is_empty(), w);
        t.eq("v_str_bytes", s.as_bytes().to_vec(), enc(&c), w);
        t.eq("v_str_chars", s.chars().collect::<Vec<_>>(), c.clone(), w);
        t.eq("v_first_char", s.chars().next(), c.first().copied(), w);
        t.eq("v_str_trim", cv(s.trim()), trim_start(trim_end(&c)).to_vec(), w);
        t.eq("v_str_trim_end", cv(s.trim_end()), trim_end(&c).to_vec(), w);
        t.eq("v_str_trim_start", cv(s.trim_start()), trim_start(&c).to_vec(), w);
        t.eq("v_from_utf8", std::str::from_utf8(&enc(&c)).ok(), Some(s.as_str()), w);
        t.eq("v_to_string", cv(&s.as_str().to_string()), c.clone(), w);
        t.ok("v_clone", s.clone() == *s, w);
        for p in al {
            let w = || format!("{s:?} {p:?}");
            t.eq("v_str_find_char", s.find(p), find_sub(&c, &[p]).map(|i| boff(&c, i)), w);
            t.eq("v_str_rfind_char", s.rfind(p), rfind_sub(&c, &[p]).map(|i| boff(&c, i)), w);
            t.eq("v_str_contains_char", s.contains(p), c.contains(&p), w);
            t.eq("v_str_starts_with_char", s.starts_with(p), c.first() == Some(&p), w);
            t.eq("v_str_ends_with_char", s.ends_with(p), c.last() == Some(&p), w);
            t.eq("v_str_split_once_char", pv(s.split_once(p)), split1(&c, &[p]), w);
            t.eq("v_str_rsplit_once_char", pv(s.rsplit_once(p)), rsplit1(&c, &[p]), w);
            t.eq("v_str_trim_end_matches_char", cv(s.trim_end_matches(p)), trim_end_matches(&c, &[p]).to_vec(), w);
            t.eq("v_str_trim_start_matches_char", cv(s.trim_start_matches(p)), trim_start_matches(&c, &[p]).to_vec(), w);
            t.eq("v_str_trim_matches_char", cv(s.trim_matches(p)), trim_start_matches(trim_end_matches(&c, &[p]), &[p]).to_vec(), w);
            t.eq("v_str_split_char", s.split(p).map(cv).collect::<Vec<_>>(), split_at_char(&c, p), w);
            t.eq("v_str_strip_suffix_char", s.strip_suffix(p).map(cv), if ends_with(&c, &[p]) { Some(c[..c.len() - 1].to_vec()) } else { None }, w);
            for to in ["", "x", "éa"] {
                t.eq("v_str_replace_char", cv(&s.replace(p, to)), repl_char(&c, p, &cv(to)), w);
            }
            let mut x = s.clone();
            x.push(p);
            t.eq("v_push_char", cv(&x), [c.clone(), vec![p]].concat(), w);
        }
        for n in &ns {
            let d = cv(n);
            let w = || format!("{s:?} {n:?}");
            let n = n.as_str();
            t.eq("v_str_find", s.find(n), find_sub(&c, &d).map(|i| boff(&c, i)), w);
            t.eq("v_str_rfind", s.rfind(n), rfind_sub(&c, &d).map(|i| boff(&c, i)), w);
            t.eq("v_str_contains", s.contains(n), find_sub(&c, &d).is_some(), w);
            t.eq("v_str_starts_with", s.starts_with(n), occurs(&c, &d, 0), w);
            t.eq("v_str_ends_with", s.ends_with(n), ends_with(&c, &d), w);
            t.eq("v_str_split_once", pv(s.split_once(n)), split1(&c, &d), w);
            t.eq("v_str_rsplit_once", pv(s.rsplit_once(n)), rsplit1(&c, &d), w);
            t.eq("v_str_trim_end_matches", cv(s.trim_end_matches(n)), trim_end_matches(&c, &d).to_vec(), w);
            t.eq("v_str_trim_start_matches", cv(s.trim_start_matches(n)), trim_start_matches(&c, &d).to_vec(), w);
            t.eq("v_str_strip_suffix", s.strip_suffix(n).map(cv), if ends_with(&c, &d) { Some(c[..c.len() - d.len()].to_vec()) } else { None }, w);
            t.eq("v_str_strip_prefix", s.strip_prefix(n).map(cv), if occurs(&c, &d, 0) { Some(c[d.len()..].to_vec()) } else { None }, w);
            t.eq("v_eq_str", s == n, c == d, w);
            t.eq("v_eq", *s == n.to_string(), c == d, w);
            t.eq("v_cmp_str", ord(s.as_str().cmp(n)), cmp_chars(&c, &d), w);
            t.eq("v_str_cat", cv(&format!("{s}{n}")), [c.clone(), d.clone()].concat(), w);
            t.eq("v_str_cat", cv(&(s.clone() + n)), [c.clone(), d.clone()].concat(), w);
            let mut x = s.clone();
            x.push_str(n);
            t.eq("v_push_str", cv(&x), [c.clone(), d.clone()].concat(), w);
            if !d.is_empty() {
                for to in ["", "x", "\\"] {
                    t.eq("v_str_replace", cv(&s.replace(n, to)), repl_str(&c, &d, &cv(to)), w);
                }
            }
            let l = [s.as_str(), n, "b"];
            t.eq("v_contains_str", l[1..].contains(&s.as_str()), (1..3).any(|i| cv(l[i]) == c), w);
            let l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
            t.eq("v_contains_string", l[1..].contains(s), (1..3).any(|i| cv(&l[i]) == c), w);
        }
        for a in 0..=c.len() * 3 + 1 {
            let w = || format!("{s:?} {a}");
            let i = cidx(&c, a);
            t.eq("v_str_get_to", s.get(..a).map(cv), i.map(|i| c[..i].to_vec()), w);
            t.eq("v_str_get_from", s.get(a..).map(cv), i.map(|i| c[i..].to_vec()), w);
            if let Some(i) = i {
                t.eq("v_str_slice_to", cv(&s[..a]), c[..i].to_vec(), w);
                t.eq("v_str_slice_from", cv(&s[a..]), c[i..].to_vec(), w);
            }
            for b in 0..=c.len() * 3 + 1 {
                let e = match (i, cidx(&c, b)) {
                    (Some(i), Some(j)) if a <= b => Some(c[i..j].to_vec()),
                    _ => None,
                };
                t.eq("v_str_get", s.get(a..b).map(cv), e.clone(), w);
                if let Some(e) = e {
                    t.eq("v_str_slice", cv(&s[a..b]), e, w);
                }
            }
        }
    }
    // a fourth encoded length, and every white-space character
    for u in 0..0x11_0000u32 {
        let Some(c) = char::from_u32(u) else { continue };
        let s = c.to_string();
        let w = || format!("U+{u:04X}");
        t.ok("v_char_to_string", cv(&s) == [c], w);
        t.ok("v_char_to_string", format!("{c}") == s, w);
        t.ok("v_str_bytes", s.as_bytes() == encc(c), w);
        t.ok("lemma_encc", s.len() == clen(c) && (if u < 0x80 { s.as_bytes() == [u as u8] } else { s.as_bytes().iter().all(|b| *b >= 0x80) }), w);
        t.ok("v_str_trim", s.trim().is_empty() == is_ws(c) && s.trim_end().is_empty() == is_ws(c) && s.trim_start().is_empty() == is_ws(c), w);
    }
    for s in strs(&['0', '9', '-', '+', ' ', 'a'], 5) {
        let c = cv(&s);
        t.eq("v_str_parse_i32", s.parse::<i32>().ok().map(|x| x as i128), parse_int(&c, i32::MIN as i128, i32::MAX as i128), || s.clone());
    }
    for s in ["2147483647", "2147483648", "-2147483648", "-2147483649", "+2147483647", "00000000000000000001", "-0", "99999999999999999999", "٣", "1_0", "1\n"] {
        t.eq("v_str_parse_i32", s.parse::<i32>().ok().map(|x| x as i128), parse_int(&cv(s), i32::MIN as i128, i32::MAX as i128), || s.to_string());
    }
    for s in strs(&['a', 'é', '→', '0'], 6) {
        let c = cv(&s);
        t.eq("v_pad_right", cv(&format!("{s:0<4}")), pad_right(&c, '0', 4), || s.clone());
    }
    t.ok("v_empty_slice", <&[u8]>::default().is_empty(), String::new);
    t.ok("v_string_new", String::new().chars().count() == 0, String::new);
    for n in (-1200..1200).chain([i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, u64::MAX as i128]) {
        t.eq("v_int_to_string", cv(&n.to_string()), int_text(n), || n.to_string());
        if let Ok(x) = i32::try_from(n) {
            t.eq("v_int_to_string", cv(&format!("{x}")), int_text(n), || n.to_string());
        }
    }
}

fn order(t: &mut T) {
    // pairs ordered by their first half only: the second shows whether the sort is stable
    let al: Vec<(i32, usize)> = vec![(0, 0), (1, 0), (2, 0)];
    for s in seqs(&al, 7) {
        let s: Vec<(i32, usize)> = s.into_iter().enumerate().map(|(i, x)| (x.0, i)).collect();
        let w = || format!("{s:?}");
        let up = |a: &(i32, usize), b: &(i32, usize)| cmp_int(a.0 as i128, b.0 as i128);
        let down = |a: &(i32, usize), b: &(i32, usize)| cmp_int(b.0 as i128, a.0 as i128);
        let mut v = s.clone();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        t.eq("v_sort_by", v, isort(&s, &up), w);
        let mut v = s.clone();
        v.sort_by_key(|a| a.0);
        t.eq("v_sort_by", v, isort(&s, &up), w);
        let mut v = s.clone();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        t.eq("v_sort_by", v, isort(&s, &down), w);
        // a long one, past the small-slice path of std's sort
        if s.len() == 7 {
            let l: Vec<(i32, usize)> = (0..63).map(|i| (s[i % 7].0 * (i as i32 % 5), i)).collect();
            let mut v = l.clone();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            t.eq("v_sort_by", v, isort(&l, &up), w);
        }
    }
    for a in [i32::MIN, -1, 0, 1, i32::MAX] {
        for b in [i32::MIN, -1, 0, 1, i32::MAX] {
            t.eq("v_cmp_int", ord(a.cmp(&b)), cmp_int(a as i128, b as i128), || format!("{a} {b}"));
            let o = a.cmp(&b);
            for q in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
                t.eq("v_then", ord(o.then(q)), if ord(o) != 0 { ord(o) } else { ord(q) }, || format!("{o:?} {q:?}"));
            }
            t.eq("v_reverse", ord(o.reverse()), -ord(o), || format!("{o:?}"));
        }
    }
}

/// every sequence of writes of a small alphabet, against an association list
fn maps(t: &mut T) {
    let keys = ["", "a", "b", "é"];
    let ops: Vec<(usize, i32)> = (0..keys.len() * 2).map(|i| (i % keys.len(), (i / keys.len()) as i32)).collect();
    for s in seqs(&ops, 4) {
        let mut l: Vec<(String, i32)> = vec![];
        let mut h: HashMap<String, i32> = HashMap::new();
        let mut b: BTreeMap<String, i32> = BTreeMap::new();
        for (n, (k, op)) in s.iter().enumerate() {
            let k = keys[*k].to_string();
            let n = n as i32;
            let w = || format!("{s:?}");
            let p = l.iter().position(|x| x.0 == k);
            if *op == 0 {
                match p {
                    Some(p) => l[p].1 = n,
                    None => l.push((k.clone(), n)),
                }
                h.insert(k.clone(), n);
                b.insert(k.clone(), n);
            } else {
                // the slot: the value there, or the given one, and what is written through it stays
                let old = p.map(|p| l[p].1).unwrap_or(100);
                match p {
                    Some(p) => l[p].1 = old + 7,
                    None => l.push((k.clone(), old + 7)),
                }
                let x = h.entry(k.clone()).or_insert(100);
                t.eq("HashMap::v_slot", *x, old, w);
                *x += 7;
                let x = b.entry(k.clone()).or_insert(100);
                t.eq("BTreeMap::v_slot", *x, old, w);
                *x += 7;
            }
        }
        let w = || format!("{s:?}");
        let mut e: Vec<(&String, &i32)> = l.iter().map(|x| (&x.0, &x.1)).collect();
        e.sort_by(|x, y| ord_i(cmp_chars(&cv(x.0), &cv(y.0))));
        t.eq("BTreeMap::v_entries", b.iter().collect::<Vec<_>>(), e.clone(), w);
        t.eq("BTreeMap::v_values", b.values().collect::<Vec<_>>(), e.iter().map(|x| x.1).collect(), w);
        t.eq("BTreeMap::v_keys", b.keys().collect::<Vec<_>>(), e.iter().map(|x| x.0).collect(), w);
        t.eq("BTreeMap::v_into_values", b.clone().into_values().collect::<Vec<_>>(), e.iter().map(|x| *x.1).collect(), w);
        let mut g: Vec<_> = h.iter().collect();
        g.sort();
        let mut e2 = e.clone();
        e2.sort();
        t.eq("HashMap::v_entries", g, e2, w);
        let mut g: Vec<_> = h.values().collect();
        g.sort();
        let mut e2: Vec<_> = e.iter().map(|x| x.1).collect();
        e2.sort();
        t.eq("HashMap::v_values", g, e2, w);
        t.eq("HashMap::len", h.len(), e.len(), w);
        t.eq("BTreeMap::len", b.len(), e.len(), w);
        t.eq("HashMap::is_empty", h.is_empty(), e.is_empty(), w);
        t.eq("BTreeMap::is_empty", b.is_empty(), e.is_empty(), w);
        for k in keys {
            let v = e.iter().find(|x| x.0 == k).map(|x| *x.1);
            t.eq("HashMap::get", h.get(k).copied(), v, w);
            t.eq("BTreeMap::get", b.get(k).copied(), v, w);
            t.eq("HashMap::contains_key", h.contains_key(k), v.is_some(), w);
            t.eq("BTreeMap::contains_key", b.contains_key(k), v.is_some(), w);
            if let Some(v) = v {
                t.eq("HashMap::v_index", h[k], v, w);
                t.eq("BTreeMap::v_index", b[k], v, w);
            }
        }
    }
    let mut b: BTreeMap<[u8; 2], u8> = BTreeMap::new();
    for k in [[1u8, 0], [0, 255], [255, 0], [0, 1], [1, 1]] {
        b.insert(k, k[0]);
    }
    let ks: Vec<[u8; 2]> = b.keys().copied().collect();
    t.ok("BTreeMap::v_keys", ks.windows(2).all(|p| p[0][0] < p[1][0] || (p[0][0] == p[1][0] && p[0][1] < p[1][1])), || format!("{ks:?}"));
}
fn ord_i(x: i32) -> Ordering {
    x.cmp(&0)
}

fn time(t: &mut T) {
    for ms in [0u64, 1, 999, 1000, 1001, 4_294_967_295, 4_294_967_296, u64::MAX / 2, u64::MAX] {
        t.eq("v_duration_from_millis", Duration::from_millis(ms).as_nanos(), ms as u128 * 1_000_000, || ms.to_string());
        t.eq("v_duration_from_secs", Duration::from_secs(ms).as_nanos(), ms as u128 * 1_000_000_000, || ms.to_string());
        for m2 in [0u64, 1, 500, 1000, u64::MAX] {
            let (a, b) = (Duration::from_millis(ms), Duration::from_millis(m2));
            let (x, y) = (a.as_nanos(), b.as_nanos());
            t.eq("Duration::saturating_sub", a.saturating_sub(b).as_nanos(), if x >= y { x - y } else { 0 }, || format!("{ms} {m2}"));
        }
    }
    t.eq("v_duration_zero", Duration::ZERO.as_nanos(), 0, String::new);
}

/// -> contracts tried, cases, what does not agree
pub fn run() -> (Vec<&'static str>, u64, Vec<String>) {
    let mut t = T { n: BTreeMap::new(), bad: vec![] };
    bytes(&mut t);
    text(&mut t);
    order(&mut t);
    maps(&mut t);
    time(&mut t);
    (t.n.keys().copied().collect(), t.n.values().sum(), t.bad)
}
