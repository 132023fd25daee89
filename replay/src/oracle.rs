//! Reference results, computed straight from the property statements (no code shared with the crate
//! under test).  Used to confirm a failed obligation with a concrete input and to label an input as
//! failing; `None` from an `Option<..>`-wrapped query means "the statement says nothing about this".

use std::collections::BTreeMap;

pub use crate::zones::ZONES;

// ---------------------------------------------------------------- searching
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| h[i] == n[0] && &h[i..i + n.len()] == n)
}
pub fn rfind(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.len() > h.len() {
        return None;
    }
    (0..=h.len() - n.len()).rev().find(|&i| h[i] == n[0] && &h[i..i + n.len()] == n)
}
fn le(b: &[u8]) -> usize {
    b.iter().rev().fold(0usize, |a, &x| a * 256 + x as usize)
}

// ---------------------------------------------------------------- frames (C02)
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub at: usize,
    pub hdr: usize,
    pub body: usize,
    pub dur: u8,
}
impl Frame {
    pub fn body<'a>(&self, d: &'a [u8]) -> &'a [u8] {
        &d[self.at + self.hdr..self.at + self.hdr + self.body]
    }
}
pub fn frames(d: &[u8]) -> Vec<Frame> {
    let mut r = vec![];
    let mut i = 0;
    loop {
        if i + 2 > d.len() {
            break;
        }
        let kind = d[i + 1] % 8;
        let mut hdr = 2;
        if kind == 3 {
            hdr += 4;
        }
        let body;
        match kind {
            1 | 3 | 4 | 5 | 6 => {
                if i + hdr + 4 > d.len() {
                    break;
                }
                body = le(&d[i + hdr..i + hdr + 4]);
                hdr += 4;
            }
            2 => body = 8,
            _ => body = 0,
        }
        if body > d.len() || i + hdr + body > d.len() {
            break;
        }
        r.push(Frame { at: i, hdr, body, dur: d[i] });
        i += hdr + body;
    }
    r
}

/// a print record whose severity byte is at p: (severity, text, position after it)
fn print_at(b: &[u8], p: usize) -> Option<(u8, &[u8], usize)> {
    if p >= b.len() {
        return None;
    }
    let z = (p + 1..b.len()).find(|&i| b[i] == 0)?;
    Some((b[p].min(4), &b[p + 1..z], z + 1))
}

// ---------------------------------------------------------------- print log (C04)
pub fn prints(d: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut r: Vec<(u8, Vec<u8>)> = vec![];
    for f in frames(d) {
        let b = f.body(d);
        let mut p = 0;
        while p < b.len() && b[p] == 8 {
            let Some((id, text, q)) = print_at(b, p + 1) else { break };
            if !text.is_empty() {
                let e = (id, text.to_vec());
                if r.last() != Some(&e) {
                    r.push(e);
                }
            }
            p = q;
        }
    }
    r
}

fn uni(b: &[u8]) -> String {
    b.iter().map(|&c| c as char).collect()
}

// ---------------------------------------------------------------- obituaries (C05, C06, C07)
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Death,
    Weapon,
    Suicide,
    Teamkill,
    ByUnknown,
    KillerFirst,
    VictimFirst,
}
pub struct Phrase {
    pub kind: Kind,
    pub pre: &'static str,
    pub post: &'static str,
}
const fn p(kind: Kind, pre: &'static str, post: &'static str) -> Phrase {
    Phrase { kind, pre, post }
}
use Kind::*;
pub const PHRASES: &[Phrase] = &[
    p(Death, " sleeps with the fishes", ""),
    p(Death, " sucks it down", ""),
    p(Death, " gulped a load of slime", ""),
    p(Death, " can't exist on slime alone", ""),
    p(Death, " burst into flames", ""),
    p(Death, " turned into hot slag", ""),
    p(Death, " visits the Volcano God", ""),
    p(Death, " cratered", ""),
    p(Death, " fell to his death", ""),
    p(Death, " fell to her death", ""),
    p(Death, " blew up", ""),
    p(Death, " was spiked", ""),
    p(Death, " was zapped", ""),
    p(Death, " ate a lavaball", ""),
    p(Death, " died", ""),
    p(Death, " tried to leave", ""),
    p(Death, " was squished", ""),
    p(Weapon, " tries to put the pin back in", ""),
    p(Weapon, " becomes bored with life", ""),
    p(Weapon, " discovers blast radius", ""),
    p(Weapon, " electrocutes himself", ""),
    p(Weapon, " electrocutes herself", ""),
    p(Weapon, " railcutes himself", ""),
    p(Weapon, " railcutes herself", ""),
    p(Weapon, " discharges into the slime", ""),
    p(Weapon, " discharges into the lava", ""),
    p(Weapon, " discharges into the water", ""),
    p(Weapon, " heats up the water", ""),
    p(Suicide, " suicides", ""),
    p(Teamkill, " squished a teammate", ""),
    p(Teamkill, " mows down a teammate", ""),
    p(Teamkill, " checks his glasses", ""),
    p(Teamkill, " checks her glasses", ""),
    p(Teamkill, " gets a frag for the other team", ""),
    p(Teamkill, " loses another friend", ""),
    p(ByUnknown, " was telefragged by his teammate", ""),
    p(ByUnknown, " was telefragged by her teammate", ""),
    p(ByUnknown, " was crushed by his teammate", ""),
    p(ByUnknown, " was crushed by her teammate", ""),
    p(ByUnknown, " was jumped by his teammate", ""),
    p(ByUnknown, " was jumped by her teammate", ""),
    p(KillerFirst, " stomps ", ""),
    p(KillerFirst, " squishes ", ""),
    p(KillerFirst, " rips ", " a new one"),
    p(VictimFirst, " was ax-murdered by ", ""),
    p(VictimFirst, " softens ", "'s fall"),
    p(VictimFirst, " tried to catch ", ""),
    p(VictimFirst, " was crushed by ", ""),
    p(VictimFirst, " was jumped by ", ""),
    p(VictimFirst, " chewed on ", "'s boomstick"),
    p(VictimFirst, " was body pierced by ", ""),
    p(VictimFirst, " was nailed by ", ""),
    p(VictimFirst, " was railed by ", ""),
    p(VictimFirst, " was telefragged by ", ""),
    p(VictimFirst, " accepts ", "'s discharge"),
    p(VictimFirst, " drains ", "'s batteries"),
    p(VictimFirst, " was lead poisoned by ", ""),
    p(VictimFirst, " accepts ", "'s shaft"),
    p(VictimFirst, " ate 2 loads of ", "'s buckshot"),
    p(VictimFirst, " was perforated by ", ""),
    p(VictimFirst, " was punctured by ", ""),
    p(VictimFirst, " was ventilated by ", ""),
    p(VictimFirst, " ate 8 loads of ", "'s buckshot"),
    p(VictimFirst, " gets a natural disaster from ", ""),
    p(VictimFirst, " rides ", "'s rocket"),
    p(VictimFirst, " was gibbed by ", "'s rocket"),
    p(VictimFirst, " was straw-cuttered by ", ""),
    p(VictimFirst, " eats ", "'s pineapple"),
    p(VictimFirst, " was gibbed by ", "'s grenade"),
    p(VictimFirst, " was brutalized by ", "'s quad rocket"),
    p(VictimFirst, " was smeared by ", "'s quad rocket"),
    p(VictimFirst, " was hooked by ", ""),
];

fn occurrences(t: &str, n: &str) -> Vec<usize> {
    (0..t.len()).filter(|&i| t.is_char_boundary(i) && t[i..].starts_with(n)).collect()
}
#[derive(Clone, Debug, PartialEq)]
pub enum Obit {
    /// names a player and a kind
    One(Kind, String),
    /// (killer)
    Kill(String),
    None,
    /// outside the statement: several phrases, or text behind the phrase
    Unspecified,
}
/// The statement's reading of one obituary text (line break already removed)
pub fn classify(t: &str) -> Obit {
    // every way in which the text contains a phrase: (span start, span end, phrase)
    let mut m: Vec<(usize, usize, usize)> = vec![];
    let mut partial = false;
    for (i, ph) in PHRASES.iter().enumerate() {
        let a = occurrences(t, ph.pre);
        if a.is_empty() {
            continue;
        }
        if ph.post.is_empty() {
            for s in a {
                m.push((s, s + ph.pre.len(), i));
            }
        } else {
            for s in a {
                let b: Vec<usize> = occurrences(t, ph.post).into_iter().filter(|&e| e >= s + ph.pre.len()).collect();
                if b.is_empty() {
                    partial = true;
                }
                for e in b {
                    m.push((s, e + ph.post.len(), i));
                }
            }
        }
    }
    let _ = partial;
    if m.is_empty() {
        return Obit::None;
    }
    // one match whose fixed text covers all the others
    'cand: for &(s, e, i) in &m {
        let ph = &PHRASES[i];
        let two = matches!(ph.kind, KillerFirst | VictimFirst);
        if (!two || !ph.post.is_empty()) && e != t.len() {
            continue;
        }
        for &(s2, e2, j) in &m {
            if (s2, j) == (s, i) {
                continue; // the same phrase in the same place
            }
            if !(s2 >= s && e2 <= s + ph.pre.len()) {
                continue 'cand;
            }
        }
        let x = t[..s].to_string();
        let y = if ph.post.is_empty() { t[e..].to_string() } else { t[s + ph.pre.len()..e - ph.post.len()].to_string() };
        return match ph.kind {
            KillerFirst => Obit::Kill(x),
            VictimFirst => Obit::Kill(y),
            k => Obit::One(k, x),
        };
    }
    Obit::Unspecified
}

/// scores; None when some obituary is outside the statement
pub fn frags(d: &[u8]) -> Option<BTreeMap<String, i64>> {
    let mut r: BTreeMap<String, i64> = BTreeMap::new();
    for (fi, f) in frames(d).iter().enumerate() {
        let b = f.body(d);
        if b.is_empty() || b[0] != 8 {
            continue;
        }
        let Some((id, text, _)) = print_at(b, 1) else { continue };
        if id != 1 || text.is_empty() {
            continue;
        }
        let t = uni(text);
        let t = t.trim_end_matches('\n');
        match classify(t) {
            Obit::None => {}
            Obit::Unspecified => return None,
            Obit::Kill(k) => *r.entry(k).or_insert(0) += 1,
            Obit::One(Kind::Suicide, x) => *r.entry(x).or_insert(0) -= 2,
            Obit::One(Kind::ByUnknown, v) => {
                if let Some(k) = team_killer(d, fi, &v) {
                    *r.entry(k).or_insert(0) -= 1;
                }
            }
            Obit::One(_, x) => *r.entry(x).or_insert(0) -= 1,
        }
    }
    Some(r)
}
fn team_killer(d: &[u8], fi: usize, victim: &str) -> Option<String> {
    let fs = frames(d);
    let mut numbers = vec![];
    let mut seen = 0;
    for f in &fs[fi..] {
        if f.body == 0 {
            continue;
        }
        let b = f.body(d);
        let mut at = 0;
        if seen == 0 {
            // the obituary itself: what follows it in its frame. A print record is (type, severity, text, 0)
            let (_, _, q) = print_at(b, 1)?;
            at = q;
        }
        if at + 4 <= b.len() && b[at] == 14 {
            numbers.push(b[at + 1]);
        }
        seen += 1;
        if seen == 3 {
            break;
        }
    }
    let cl = clients(d)?;
    let v = cl.iter().find(|c| c.name == victim)?;
    for n in numbers {
        if let Some(c) = cl.iter().find(|c| c.number == n) {
            if c.team == v.team && c.name != v.name {
                return Some(c.name.clone());
            }
        }
    }
    None
}

// ---------------------------------------------------------------- flags (C08)
/// captures, pickups, returns, assists, defends, carrier defends, carrier defends vs aggressive
pub type Flags = [u64; 7];
pub const FLAG_NAMES: [&str; 7] =
    ["captures", "pickups", "returns", "carrier_frags", "defends", "carrier_defends", "carrier_defends_vs_aggressive"];
pub const FLAG_PHRASES: &[(usize, &str)] = &[
    (0, " ãáðôõòåä the ÒÅÄ flag!\n"),
    (0, " ãáðôõòåä the ÂÌÕÅ flag!\n"),
    (4, " defends the ÒÅÄ flag\n"),
    (4, " defends the ÂÌÕÅ flag\n"),
    (5, " defends ÒÅÄ's flag carrier\n"),
    (5, " defends ÂÌÕÅ's flag carrier\n"),
    (6, " defends ÒÅÄ's flag carrier against an aggressive enemy\n"),
    (6, " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n"),
    (1, " çïô the ÒÅÄ flag!\n"),
    (1, " çïô the ÂÌÕÅ flag!\n"),
    (2, " òåôõòîåä the ÒÅÄ flag!\n"),
    (2, " òåôõòîåä the ÂÌÕÅ flag!\n"),
    (3, " gets an assist for returning his flag!\n"),
    (3, " gets an assist for fragging the flag carrier!\n"),
];
fn is_suffix(t: &[u8]) -> bool {
    let u = uni(t);
    FLAG_PHRASES.iter().any(|(k, n)| *k <= 2 && u.ends_with(n))
}
/// None when an announcement is outside the statement (phrases of several kinds)
pub fn flags(d: &[u8]) -> Option<BTreeMap<String, Flags>> {
    let mut r: BTreeMap<String, Flags> = BTreeMap::new();
    for f in frames(d) {
        let b = f.body(d);
        if find(b, b"flag").is_none() {
            continue;
        }
        // the prints of the frame
        let mut list: Vec<&[u8]> = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == 8 {
                let Some((id, text, q)) = print_at(b, i + 1) else { break };
                if id == 2 && !text.is_empty() {
                    list.push(text);
                }
                i = q;
            } else {
                i += 1;
            }
        }
        let mut j = 0;
        while j < list.len() {
            let mut t = list[j].to_vec();
            if j + 1 < list.len() && is_suffix(list[j + 1]) {
                t.extend_from_slice(list[j + 1]);
                j += 1;
            }
            j += 1;
            let u = uni(&t);
            let found: Vec<(usize, usize)> =
                FLAG_PHRASES.iter().filter_map(|(k, n)| u.find(n).map(|p| (*k, p))).collect();
            if found.is_empty() {
                continue;
            }
            if found.iter().any(|x| x.0 != found[0].0) || found.len() > 1 {
                return None;
            }
            r.entry(u[..found[0].1].to_string()).or_insert([0; 7])[found[0].0] += 1;
        }
    }
    Some(r)
}

// ---------------------------------------------------------------- pings (C09)
pub fn pings(d: &[u8]) -> Option<BTreeMap<u8, u64>> {
    let mut all: BTreeMap<u8, Vec<u64>> = BTreeMap::new();
    let mut taken = 0;
    for f in frames(d) {
        if taken == 8 {
            break;
        }
        let b = f.body(d);
        let mut p = 0;
        let mut any = false;
        // 36, player, ping (2 bytes), then 53, player, loss: three bytes that are stepped over
        while p + 4 < b.len() && b[p] == 36 {
            all.entry(b[p + 1]).or_default().push(le(&b[p + 2..p + 4]) as u64);
            any = true;
            p += 7;
        }
        if any {
            taken += 1;
        }
    }
    if taken == 0 {
        return None;
    }
    Some(all.into_iter().map(|(k, v)| (k, v.iter().sum::<u64>() / v.len() as u64)).collect())
}

// ---------------------------------------------------------------- clients (C10, C11)
#[derive(Clone, Debug, PartialEq)]
pub struct Client {
    pub number: u8,
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub spec: bool,
    pub bot: bool,
    pub auth: Option<String>,
    pub cc: Option<String>,
}
pub fn client_strings(d: &[u8]) -> Option<Vec<String>> {
    let spawn = find(d, b"\tcmd spawn")?;
    let mut off = spawn;
    let mut r = vec![];
    loop {
        let w = &d[off..d.len().min(off + 512)];
        let Some(o) = find(w, b"\\name\\") else { break };
        let key = off + o;
        let Some(z) = (0..key).rev().find(|&i| d[i] == 0) else { break };
        let Some(e) = (z + 1..d.len()).find(|&i| d[i] == 0) else { break };
        let n = e - z - 1;
        if n < 7 || n > 256 {
            break;
        }
        r.push(uni(&d[z + 1..e]));
        off = e;
        if off >= spawn + 24 * 512 {
            break;
        }
    }
    Some(r)
}
/// the value of one key of an info string
pub fn clients(d: &[u8]) -> Option<Vec<Client>> {
    Some(
        client_strings(d)?
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let c = quake_clientinfo::Clientinfo::from(s.as_str());
                Client {
                    number: i as u8,
                    name: c.name.unwrap_or_default(),
                    team: c.team.unwrap_or_default(),
                    color: [c.topcolor.unwrap_or(0) as u8, c.bottomcolor.unwrap_or(0) as u8],
                    spec: c.spectator.unwrap_or(0) != 0,
                    bot: c.bot.unwrap_or(0) != 0,
                    auth: c.auth,
                    cc: c.flag,
                }
            })
            .collect(),
    )
}
/// stable, by the plain lower-case form
pub fn sort_names(v: Vec<String>) -> Vec<String> {
    let mut k: Vec<(String, usize, String)> =
        v.into_iter().enumerate().map(|(i, s)| (quake_text::unicode::to_utf8(&s).to_lowercase(), i, s)).collect();
    k.sort();
    k.into_iter().map(|x| x.2).collect()
}
pub fn distinct(v: Vec<String>) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    for s in v {
        if !r.contains(&s) {
            r.push(s);
        }
    }
    r
}

// ---------------------------------------------------------------- statistics (C15)
pub fn ktx_bytes(d: &[u8]) -> Option<Vec<u8>> {
    let p = rfind(d, br#"{"version": "#)?;
    let mut o = p.checked_sub(18)?;
    let mut r = vec![];
    loop {
        // a block is a ten byte frame header, then length (counting type and number), type, number
        if o + 18 > d.len() {
            break;
        }
        let len = le(&d[o + 10..o + 14]);
        let kind = le(&d[o + 14..o + 16]);
        let number = le(&d[o + 16..o + 18]);
        if len < 2 || kind != 3 || o + 18 + (len - 2) > d.len() {
            break;
        }
        r.extend_from_slice(&d[o + 18..o + 18 + len - 2]);
        o += 18 + len - 2;
        if number == 0 {
            break;
        }
    }
    Some(r)
}
pub fn ktx_string(d: &[u8]) -> Option<String> {
    String::from_utf8(ktx_bytes(d)?).ok()
}
pub fn ktx(d: &[u8]) -> Option<ktxstats::v3::KtxstatsV3> {
    ktxstats::v3::KtxstatsV3::try_from(ktx_string(d)?.as_str()).ok()
}

// ---------------------------------------------------------------- players and teams (C12, C13)
#[derive(Clone, Debug, PartialEq)]
pub struct Player {
    pub name: String,
    pub team: String,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub bot: bool,
    pub auth: Option<String>,
    pub cc: Option<String>,
}
fn order(v: Vec<Player>) -> Vec<Player> {
    let mut k: Vec<((i64, String, usize), Player)> =
        v.into_iter().enumerate().map(|(i, p)| ((-(p.frags as i64), p.name.clone(), i), p)).collect();
    k.sort_by(|a, b| a.0.cmp(&b.0));
    k.into_iter().map(|x| x.1).collect()
}
pub fn players_of_stats(k: &ktxstats::v3::KtxstatsV3) -> Vec<Player> {
    order(
        k.players
            .iter()
            .map(|p| Player {
                name: p.name.clone(),
                team: p.team.clone(),
                color: [p.top_color as u8, p.bottom_color as u8],
                frags: p.stats.frags,
                ping: p.ping as u32,
                bot: p.bot.is_some() || p.ping == 10,
                auth: if p.login.is_empty() { None } else { Some(p.login.clone()) },
                cc: None,
            })
            .collect(),
    )
}
/// Outer None: outside the statement
pub fn players_parsed(d: &[u8]) -> Option<Option<Vec<Player>>> {
    let (Some(cl), Some(pg)) = (clients(d), pings(d)) else { return Some(None) };
    if cl.len() > 256 {
        return None;
    }
    let fr = frags(d)?;
    Some(Some(order(
        cl.into_iter()
            .filter(|c| !c.spec)
            .map(|c| Player {
                frags: fr.get(&c.name).copied().unwrap_or(0) as i32,
                ping: pg.get(&c.number).copied().unwrap_or(0) as u32,
                name: c.name,
                team: c.team,
                color: c.color,
                bot: c.bot,
                auth: c.auth,
                cc: c.cc,
            })
            .collect(),
    )))
}
pub fn players(d: &[u8]) -> Option<Option<Vec<Player>>> {
    match ktx(d) {
        Some(k) => Some(Some(players_of_stats(&k))),
        None => players_parsed(d),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Team {
    pub name: String,
    pub color: [u8; 2],
    pub frags: i32,
    pub ping: u32,
    pub players: Vec<Player>,
}
pub fn team(ps: &[Player]) -> Team {
    if ps.is_empty() {
        return Team { name: String::new(), color: [0, 0], frags: 0, ping: 0, players: vec![] };
    }
    let n = ps.len() as i128;
    let fs: i128 = ps.iter().map(|p| p.frags as i128).sum();
    let pg: i128 = ps.iter().map(|p| p.ping as i128).sum();
    let color = if ps.len() <= 2 {
        ps[0].color
    } else {
        let mut cnt: BTreeMap<[u8; 2], usize> = BTreeMap::new();
        for p in ps {
            *cnt.entry(p.color).or_insert(0) += 1;
        }
        let best = *cnt.values().max().unwrap();
        ps.iter().find(|p| cnt[&p.color] == best).unwrap().color
    };
    Team {
        name: ps[0].team.clone(),
        color,
        frags: fs.max(i32::MIN as i128).min(i32::MAX as i128) as i32,
        ping: ((2 * pg + n) / (2 * n)) as u32,
        players: ps.to_vec(),
    }
}
/// the teams in the order of their lower-case names; names equal but for case may come in any fixed order,
/// so the second part tells the sort key of each
pub fn teams(ps: &[Player]) -> Vec<Team> {
    let mut names = distinct(ps.iter().map(|p| p.team.clone()).collect());
    names.sort();
    names.sort_by_key(|n| n.to_lowercase());
    names
        .into_iter()
        .map(|n| team(&ps.iter().filter(|p| p.team == n).cloned().collect::<Vec<_>>()))
        .collect()
}

// ---------------------------------------------------------------- settings, dates, durations
pub fn settings_text(d: &[u8]) -> Option<String> {
    let w = &d[..d.len().min(1280)];
    let n = b"fullserverinfo \"";
    let a = find(w, n)? + n.len();
    let e = (a..w.len()).find(|&i| w[i] == b'"')?;
    if e == a {
        return None;
    }
    Some(quake_text::bytestr::to_utf8(&w[a..e]))
}
pub fn settings(d: &[u8]) -> Option<quake_serverinfo::Settings> {
    Some(quake_serverinfo::Settings::from(settings_text(d)?.as_str()))
}
pub fn hoony(d: &[u8]) -> bool {
    settings(d).is_some_and(|s| s.mode.as_deref() == Some("hoonymode"))
}
pub const DATE: &[u8] = b"\x08\x02matchdate: ";
pub fn ms_until(d: &[u8], until: usize) -> u64 {
    frames(d).iter().filter(|f| f.at < until).map(|f| f.dur as u64).sum()
}
pub fn countdown(d: &[u8]) -> Option<u64> {
    if hoony(d) {
        return Some(0);
    }
    find(d, DATE).map(|p| ms_until(d, p))
}
pub fn demo_ms(d: &[u8]) -> u64 {
    let p = rfind(d, b"The match is over").or_else(|| rfind(d, b"4status\0Standby\0")).unwrap_or(d.len());
    ms_until(d, p)
}
pub fn seek_ms(d: &[u8]) -> u64 {
    let (e, b) = (demo_ms(d), countdown(d).unwrap_or(0));
    if e > b {
        e - b
    } else {
        0
    }
}
pub fn ktx_duration(d: &[u8]) -> Option<std::time::Duration> {
    let s = ktx_string(d)?;
    let k = "\"duration\": ";
    let a = s.find(k)? + k.len();
    let e = a + s[a..].find(',')?;
    if e == a {
        return None;
    }
    std::time::Duration::try_from_secs_f64(s[a..e].parse().ok()?).ok()
}
pub fn date_text(d: &[u8]) -> Option<String> {
    let a = find(d, DATE)? + DATE.len();
    let e = (a..d.len()).find(|&i| d[i] == b'\n')?;
    if !(22..=25).contains(&(e - a)) {
        return None;
    }
    String::from_utf8(d[a..e].to_vec()).ok()
}
pub fn zone_minutes(z: &str) -> Option<i32> {
    for (n, m) in ZONES {
        if *n == z {
            return Some(*m);
        }
    }
    let sign = match z.chars().next()? {
        '+' => 1,
        '-' => -1,
        _ => return None,
    };
    let mut t: String = z[1..].chars().filter(|&c| c != ':').collect();
    if !t.bytes().all(|b| b.is_ascii_digit()) || t.len() > 4 {
        return None;
    }
    while t.len() < 4 {
        t.push('0');
    }
    let v: i32 = t.parse().ok()?;
    if v > 1200 || v % 100 > 59 {
        return None;
    }
    Some(sign * (v / 100 * 60 + v % 100))
}
pub fn date(d: &[u8]) -> Option<i64> {
    let t = date_text(d)?;
    let (a, z) = (t.get(..19)?, t.get(20..)?);
    let off = zone_minutes(z)?;
    let text = format!("{}{}{:02}:{:02}", a, if off < 0 { '-' } else { '+' }, off.abs() / 60, off.abs() % 60);
    chrono::DateTime::parse_from_str(&text, "%Y-%m-%d %H:%M:%S%z").ok().map(|x| x.timestamp())
}
// ---------------------------------------------------------------- verdicts (C18)
const END: &[u8] = b"\0\x02EndOfDemo\0";
pub fn valid(d: &[u8]) -> bool {
    d.len() >= 1024 && d.ends_with(END) && settings_text(d).is_some() && client_strings(d).is_some_and(|c| !c.is_empty())
}
pub fn aborted(d: &[u8]) -> bool {
    let mut n = vec![8u8, 2];
    // "Match stopped by majority vote\n", with the coloured letters of the server
    n.extend_from_slice(&[
        205, 225, 244, 227, 232, 32, 243, 244, 239, 240, 240, 229, 228, 32, 226, 249, 32, 237, 225, 234, 239, 242, 233, 244,
        249, 32, 246, 239, 244, 229, 10, 0,
    ]);
    find(d, &n).is_some()
}
pub fn paused(d: &[u8]) -> bool {
    !d.ends_with(END) && (find(d, b"Server is paused").is_some() || find(d, b"paused the game").is_some())
}
