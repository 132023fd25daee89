//! Runs the public queries of the crate on concrete inputs and compares the answers with what the property
//! statements say (oracle.rs).  It is used to find a concrete failing input for a failed proof obligation, and
//! as the bounded stand-in for what the verifier does not decide.
mod gen;
mod oracle;
mod shims;
mod zones;

use mvdparser::all as m;
use oracle as o;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
struct Fail {
    query: String,
    expected: String,
    actual: String,
}
type R = Result<(), Fail>;

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

fn cut(s: String) -> String {
    if s.len() <= 1500 {
        return s;
    }
    let mut a = 700;
    while !s.is_char_boundary(a) {
        a -= 1;
    }
    let mut b = s.len() - 700;
    while !s.is_char_boundary(b) {
        b += 1;
    }
    format!("{} ...[{} bytes]... {}", &s[..a], s.len(), &s[b..])
}
fn eq<T: Debug + PartialEq>(q: &str, expected: &T, actual: &T) -> R {
    if expected == actual {
        return Ok(());
    }
    Err(Fail { query: q.into(), expected: cut(format!("{:?}", expected)), actual: cut(format!("{:?}", actual)) })
}

// ------------------------------------------------------------------ views of the crate's answers
fn v_prints(d: &[u8]) -> Vec<(u8, Vec<u8>)> {
    m::prints(d)
        .into_iter()
        .map(|p| {
            let k = format!("{:?}", p.id);
            let id = ["Low", "Medium", "High", "Chat"].iter().position(|n| *n == k).unwrap_or(4) as u8;
            (id, p.content)
        })
        .collect()
}
fn v_frags(d: &[u8]) -> BTreeMap<String, i64> {
    m::frags_per_player_name(d).into_iter().map(|(k, v)| (k, v as i64)).collect()
}
fn v_flags(d: &[u8]) -> BTreeMap<String, o::Flags> {
    m::flag_events_per_player_name(d)
        .into_iter()
        .map(|(k, v)| {
            let t = format!("{:?}", v);
            let mut r = [u64::MAX; 7];
            for (i, n) in o::FLAG_NAMES.iter().enumerate() {
                let key = format!(" {}: ", n);
                if let Some(p) = t.find(&key) {
                    let s: String = t[p + key.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    r[i] = s.parse().unwrap_or(u64::MAX);
                }
            }
            (k, r)
        })
        .collect()
}
fn v_pings(d: &[u8]) -> Option<BTreeMap<u8, u64>> {
    m::ping_per_player_number(d).ok().map(|x| x.into_iter().map(|(k, v)| (k, v as u64)).collect())
}
fn client(c: m::Client) -> o::Client {
    o::Client {
        number: c.number,
        name: c.name,
        team: c.team,
        color: c.color,
        spec: c.is_spectator,
        bot: c.is_bot,
        auth: c.auth_username,
        cc: c.auth_cc,
    }
}
fn player(p: m::Player) -> o::Player {
    o::Player {
        name: p.name,
        team: p.team,
        color: p.color,
        frags: p.frags,
        ping: p.ping,
        bot: p.is_bot,
        auth: p.auth_username,
        cc: p.auth_cc,
    }
}
fn unplayer(p: &o::Player) -> m::Player {
    m::Player {
        name: p.name.clone(),
        team: p.team.clone(),
        color: p.color,
        frags: p.frags,
        ping: p.ping,
        is_bot: p.bot,
        auth_username: p.auth.clone(),
        auth_cc: p.cc.clone(),
    }
}
fn team(t: m::Team) -> o::Team {
    o::Team { name: t.name, color: t.color, frags: t.frags, ping: t.ping, players: t.players.into_iter().map(player).collect() }
}
fn v_players(r: anyhow::Result<Vec<m::Player>>) -> Option<Vec<o::Player>> {
    r.ok().map(|v| v.into_iter().map(player).collect())
}
fn sorted<T: Debug>(v: &[T]) -> Vec<String> {
    let mut r: Vec<String> = v.iter().map(|x| format!("{:?}", x)).collect();
    r.sort();
    r
}
/// the statement fixes the order up to entries with equal score and name
fn eq_players(q: &str, e: &Option<Vec<o::Player>>, a: &Option<Vec<o::Player>>) -> R {
    if let (Some(e), Some(a)) = (e, a) {
        let k = |v: &[o::Player]| v.iter().map(|p| (p.frags, p.name.clone())).collect::<Vec<_>>();
        if k(e) == k(a) && sorted(e) == sorted(a) {
            return Ok(());
        }
    }
    eq(q, e, a)
}
/// ... of team names up to case
fn eq_teams(q: &str, e: &[o::Team], a: &[o::Team]) -> R {
    let k = |v: &[o::Team]| v.iter().map(|t| t.name.to_lowercase()).collect::<Vec<_>>();
    if k(e) == k(a) && sorted(e) == sorted(a) {
        return Ok(());
    }
    eq(q, &e.to_vec(), &a.to_vec())
}
fn eq_names(q: &str, e: Option<Vec<String>>, a: Option<Vec<String>>) -> R {
    let e = e.map(o::sort_names);
    if let (Some(e), Some(a)) = (&e, &a) {
        let k = |v: &[String]| v.iter().map(|s| quake_text::unicode::to_utf8(s).to_lowercase()).collect::<Vec<_>>();
        if k(e) == k(a) && sorted(e) == sorted(a) {
            return Ok(());
        }
    }
    eq(q, &e, &a)
}
fn ms(r: anyhow::Result<Duration>) -> Option<u128> {
    r.ok().map(|d| d.as_millis())
}

// ------------------------------------------------------------------ the properties
/// the answers of a new process
fn elsewhere(d: &[u8]) -> Option<Vec<String>> {
    use std::process::*;
    let mut c = Command::new(std::env::current_exe().ok()?)
        .arg("answers")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(d).ok()?;
    let o = c.wait_with_output().ok()?;
    if !o.status.success() {
        return None;
    }
    Some(String::from_utf8(o.stdout).ok()?.lines().map(|l| l.to_string()).collect())
}
fn everything(d: &[u8]) -> Vec<(&'static str, String)> {
    fn s<T: Debug>(r: anyhow::Result<T>) -> String {
        match r {
            Ok(v) => format!("Ok({:?})", v),
            Err(_) => "Err".into(),
        }
    }
    let mut r: Vec<(&'static str, String)> = vec![];
    r.push(("is_valid", format!("{:?}", m::is_valid(d))));
    r.push(("has_clients", format!("{:?}", m::has_clients(d))));
    r.push(("has_end_of_demo_print", format!("{:?}", m::has_end_of_demo_print(d))));
    r.push(("is_aborted", format!("{:?}", m::is_aborted(d))));
    r.push(("is_paused", format!("{:?}", mvdparser::is_paused(d))));
    r.push(("serverinfo_string", s(m::serverinfo_string(d))));
    r.push(("serverinfo", s(m::serverinfo(d))));
    r.push(("filename", s(mvdparser::filename(d))));
    r.push(("clientinfo_strings", s(m::clientinfo_strings(d))));
    r.push(("clientinfo", s(m::clientinfo(d))));
    r.push(("clients", s(m::clients(d))));
    r.push(("has_bot_players", s(m::has_bot_players(d))));
    r.push(("has_human_players", s(m::has_human_players(d))));
    r.push(("player_clients", s(m::player_clients(d))));
    r.push(("player_names", s(m::player_names(d))));
    r.push(("spectator_clients", s(m::spectator_clients(d))));
    r.push(("spectator_names", s(m::spectator_names(d))));
    r.push(("team_names", s(m::team_names(d))));
    r.push(("prints", format!("{:?}", v_prints(d))));
    r.push(("frags_per_player_name", format!("{:?}", v_frags(d))));
    r.push(("flag_events_per_player_name", format!("{:?}", v_flags(d))));
    r.push(("ping_per_player_number", format!("{:?}", v_pings(d))));
    r.push(("countdown_duration", s(m::countdown_duration(d))));
    r.push(("demo_duration", s(m::demo_duration(d))));
    r.push(("match_duration", s(m::match_duration(d))));
    r.push(("match_duration_from_seeking", s(m::match_duration_from_seeking(d))));
    r.push(("match_duration_from_ktxstats", s(m::match_duration_from_ktxstats(d))));
    r.push(("matchdate_string", s(m::matchdate_string(d))));
    r.push(("matchdate", s(m::matchdate(d))));
    r.push(("timestamp", s(m::timestamp(d))));
    r.push(("timestamp_from_epoch", s(m::timestamp_from_epoch(d))));
    r.push(("ktxstats_string", s(m::ktxstats_string(d))));
    r.push(("ktxstats_v3", s(m::ktxstats_v3(d).map(|_| ()))));
    r.push(("server", s(m::server(d))));
    r.push(("players", s(m::players(d))));
    r.push(("players_from_parsing", s(m::players_from_parsing(d))));
    r.push(("teams", s(mvdparser::teams(d))));
    if let Ok(k) = m::ktxstats_v3(d) {
        r.push(("players_from_ktxstats", s(m::players_from_ktxstats(&k))));
        r.push(("teams_from_ktxstats", s(m::teams_from_ktxstats(&k))));
        r.push(("Server::from", format!("{:?}", m::Server::from(&k))));
        for p in &k.players {
            r.push(("Player::from", format!("{:?}", m::Player::from(p))));
        }
    }
    if let Ok(c) = m::clientinfo(d) {
        for c in &c {
            r.push(("Client::from", format!("{:?}", m::Client::from(c))));
        }
    }
    r
}

fn check_data(p: &str, d: &[u8]) -> R {
    match p {
        "C01" => {
            everything(d);
            Ok(())
        }
        "C02" => {
            eq("prints", &o::prints(d), &v_prints(d))?;
            eq("demo_duration (ms)", &Some(o::demo_ms(d) as u128), &ms(m::demo_duration(d)))?;
            eq("ping_per_player_number", &o::pings(d), &v_pings(d))?;
            if let Some(e) = o::frags(d) {
                eq("frags_per_player_name", &e, &v_frags(d))?;
            }
            if let Some(e) = o::flags(d) {
                eq("flag_events_per_player_name", &e, &v_flags(d))?;
            }
            Ok(())
        }
        "C03" => {
            eq("prints", &o::prints(d), &v_prints(d))?;
            eq("ping_per_player_number", &o::pings(d), &v_pings(d))?;
            if let Some(e) = o::frags(d) {
                eq("frags_per_player_name", &e, &v_frags(d))?;
            }
            if let Some(e) = o::flags(d) {
                eq("flag_events_per_player_name", &e, &v_flags(d))?;
            }
            eq("ktxstats_string", &o::ktx_string(d), &m::ktxstats_string(d).ok())
        }
        "C04" => eq("prints", &o::prints(d), &v_prints(d)),
        "C05" | "C06" | "C07" => match o::frags(d) {
            Some(e) => eq("frags_per_player_name", &e, &v_frags(d)),
            None => Ok(()),
        },
        "C08" => match o::flags(d) {
            Some(e) => eq("flag_events_per_player_name", &e, &v_flags(d)),
            None => Ok(()),
        },
        "C09" => eq("ping_per_player_number", &o::pings(d), &v_pings(d)),
        "C10" => {
            eq("clientinfo_strings", &o::client_strings(d), &m::clientinfo_strings(d).ok())?;
            let e = o::clients(d);
            if e.as_ref().is_some_and(|e| e.len() > 256) {
                return Ok(());
            }
            eq("clients", &e, &m::clients(d).ok().map(|v| v.into_iter().map(client).collect()))
        }
        "C11" => {
            // relative to the client list, whose content is C10's
            let all: Option<Vec<o::Client>> = m::clients(d).ok().map(|v| v.into_iter().map(client).collect());
            let pick = |spec: bool| all.clone().map(|v| v.into_iter().filter(|c| c.spec == spec).collect::<Vec<_>>());
            let view = |v: anyhow::Result<Vec<m::Client>>| v.ok().map(|v| v.into_iter().map(client).collect::<Vec<_>>());
            eq("player_clients", &pick(false), &view(m::player_clients(d)))?;
            eq("spectator_clients", &pick(true), &view(m::spectator_clients(d)))?;
            let names = |spec: bool| pick(spec).map(|v| v.into_iter().map(|c| c.name).collect::<Vec<_>>());
            eq_names("player_names", names(false), m::player_names(d).ok())?;
            eq_names("spectator_names", names(true), m::spectator_names(d).ok())?;
            let t = pick(false).map(|v| o::distinct(v.into_iter().map(|c| c.team).collect()));
            eq_names("team_names", t, m::team_names(d).ok())?;
            let bots = pick(false).map(|v| v.iter().any(|c| c.bot) || o::find(d, b"\"bot\": {").is_some());
            eq("has_bot_players", &bots, &m::has_bot_players(d).ok())?;
            let humans = pick(false).map(|v| v.iter().any(|c| !c.bot));
            eq("has_human_players", &humans, &m::has_human_players(d).ok())
        }
        "C12" => {
            if let Some(e) = o::players_parsed(d) {
                eq_players("players_from_parsing", &e, &v_players(m::players_from_parsing(d)))?;
            }
            if let Some(e) = o::players(d) {
                eq_players("players", &e, &v_players(m::players(d)))?;
            }
            Ok(())
        }
        "C13" => {
            // relative to the player list, whose content is C12's
            let ps = v_players(m::players(d));
            let a: Option<Vec<o::Team>> = mvdparser::teams(d).ok().map(|v| v.into_iter().map(team).collect());
            match (&ps, &a) {
                (Some(p), Some(a)) => eq_teams("teams", &o::teams(p), a),
                _ => eq("teams", &ps.map(|p| o::teams(&p)), &a),
            }
        }
        "C14" => {
            eq("demo_duration (ms)", &Some(o::demo_ms(d) as u128), &ms(m::demo_duration(d)))?;
            if !o::hoony(d) {
                eq("countdown_duration (ms)", &o::countdown(d).map(|x| x as u128), &ms(m::countdown_duration(d)))?;
            }
            eq("match_duration_from_seeking (ms)", &Some(o::seek_ms(d) as u128), &ms(m::match_duration_from_seeking(d)))
        }
        "C15" => eq("ktxstats_string", &o::ktx_string(d), &m::ktxstats_string(d).ok()),
        "C16" => {
            eq("serverinfo_string", &o::settings_text(d), &m::serverinfo_string(d).ok())?;
            eq("serverinfo", &o::settings(d).map(|s| format!("{:?}", s)), &m::serverinfo(d).ok().map(|s| format!("{:?}", s)))?;
            eq("filename", &o::settings(d).and_then(|s| s.serverdemo), &mvdparser::filename(d).ok())
        }
        "C17" => {
            eq("matchdate_string", &o::date_text(d), &m::matchdate_string(d).ok())?;
            eq("matchdate (s since 1970)", &o::date(d), &m::matchdate(d).ok().map(|x| x.timestamp()))
        }
        "C18" => {
            eq("is_valid", &o::valid(d), &m::is_valid(d))?;
            eq("is_aborted", &o::aborted(d), &m::is_aborted(d))?;
            eq("is_paused", &o::paused(d), &mvdparser::is_paused(d))
        }
        "C19" => {
            let k = m::ktxstats_v3(d).ok();
            let e = match &k {
                Some(k) => v_players(m::players_from_ktxstats(k)),
                None => v_players(m::players_from_parsing(d)),
            };
            eq_players("players", &e, &v_players(m::players(d)))?;
            if let Some(k) = &k {
                let v = |r: anyhow::Result<Vec<m::Team>>| r.ok().map(|v| v.into_iter().map(team).collect::<Vec<_>>());
                let e = v(m::teams_from_ktxstats(k)).unwrap_or_default();
                eq_teams("teams", &e, &v(mvdparser::teams(d)).unwrap_or_default())?;
            }
            let e = k.map(|k| (k.hostname.clone(), format!("{}:{}", k.ip, k.port), k.ip.clone(), k.port));
            eq("server", &e, &m::server(d).ok().map(|s| (s.hostname, s.address, s.ip, s.port)))?;
            let e = match o::settings(d).and_then(|s| s.epoch) {
                Some(e) => Some(e as i64),
                None => m::matchdate(d).ok().map(|x| x.timestamp()),
            };
            eq("timestamp (s since 1970)", &e, &m::timestamp(d).ok().map(|x| x.timestamp()))?;
            if o::hoony(d) {
                eq("countdown_duration", &Some(Duration::ZERO), &m::countdown_duration(d).ok())?;
            } else {
                eq("countdown_duration (ms)", &o::countdown(d).map(|x| x as u128), &ms(m::countdown_duration(d)))?;
            }
            let seek = Some(Duration::from_millis(o::seek_ms(d)));
            let e = if o::hoony(d) { seek } else { o::ktx_duration(d).or(seek) };
            eq("match_duration", &e, &m::match_duration(d).ok())
        }
        "C20" => {
            let a = everything(d);
            for i in 0..5 {
                if i % 3 == 1 {
                    // other questions in between
                    let k = d.len() / 2;
                    let _ = m::prints(&d[k..]);
                    let _ = m::players(&d[..k]);
                }
                let b = everything(d);
                for (x, y) in a.iter().zip(&b) {
                    eq(&format!("{} asked again", x.0), &x.1, &y.1)?;
                }
            }
            // other data of the same length, in the same place, in between; and a process that was never asked before
            let h = d.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
            let twin = gen::twin(h, d);
            if h >> 7 & 1 == 0 && twin != d {
                let mut buf = d.to_vec();
                let b = everything(&buf);
                buf.copy_from_slice(&twin);
                let c = everything(&buf);
                buf.copy_from_slice(d);
                let e = everything(&buf);
                for (x, y) in a.iter().zip(&b).chain(a.iter().zip(&e)) {
                    eq(&format!("{} asked again", x.0), &x.1, &y.1)?;
                }
                for (x, q, what) in [(&a, d, "first"), (&c, &twin[..], "after the same question about other data of the same length")] {
                    if let Some(f) = elsewhere(q) {
                        for (x, y) in x.iter().zip(&f) {
                            let note = if q == d { String::new() } else { format!(" (other data: {:?})", bstr::BStr::new(q)) };
                            eq(&format!("{} asked {}{}", x.0, what, cut(note)), y, &x.1)?;
                        }
                    }
                }
            }
            let copy = d.to_vec();
            let b = std::thread::spawn(move || catch_unwind(AssertUnwindSafe(|| everything(&copy))))
                .join()
                .unwrap_or_else(|e| Err(e));
            if let Ok(b) = b {
                for (x, y) in a.iter().zip(&b) {
                    eq(&format!("{} asked by another thread", x.0), &x.1, &y.1)?;
                }
            }
            Ok(())
        }
        _ => panic!("unknown property {}", p),
    }
}

// ------------------------------------------------------------------ direct inputs: player lists, statistics
fn list(r: &mut gen::Rng, huge: bool) -> Vec<o::Player> {
    let names = ["foo", "bar", "a", "A", "é", "É", "", "red", "Red", "RED", "ß", "x y", "İ", "i̇"];
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 if huge => 65_536,
        4 => r.range(10, 60),
        _ => r.range(2, 9),
    };
    let tn = if n > 1000 { 3 } else { r.range(1, 6) };
    let tb = r.below(names.len());
    let colors = r.range(1, 4);
    let ext = r.below(4);
    let fixed = r.one_in(3);
    let (f0, p0) = (*r.pick(&[i32::MAX, i32::MIN, 1, 0]), *r.pick(&[u32::MAX, 0, 1, u32::MAX - 1]));
    (0..n)
        .map(|_| o::Player {
            name: names[r.below(names.len())].to_string(),
            team: names[(tb + r.below(tn)) % names.len()].to_string(),
            color: [r.below(colors) as u8, r.below(2) as u8],
            frags: if fixed {
                f0
            } else if r.below(8) < ext {
                *r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, -1])
            } else {
                r.below(40) as i32 - 4
            },
            ping: if fixed {
                p0
            } else if r.below(8) < ext {
                *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 24, (1 << 24) + 1])
            } else {
                r.below(30) as u32
            },
            bot: r.one_in(3),
            auth: if r.one_in(3) { Some("au".into()) } else { None },
            cc: if r.one_in(3) { Some("se".into()) } else { None },
        })
        .collect()
}
fn check_direct(p: &str, seed: u64, big: bool) -> R {
    let mut r = gen::Rng::new(seed);
    if r.one_in(2) || p == "C12" {
        let mut w = gen::W::new(r.next());
        let j = w.json();
        let Ok(t) = String::from_utf8(j) else { return Ok(()) };
        let Ok(k) = m::KtxstatsV3::try_from(t.as_str()) else { return Ok(()) };
        let mut k = k;
        if r.one_in(3) {
            for q in k.players.iter_mut() {
                q.stats.frags = *r.pick(&[i32::MAX, i32::MIN, 7]);
            }
        }
        let what = format!("(statistics {:?})", t);
        let ps = v_players(m::players_from_ktxstats(&k));
        let ts: Option<Vec<o::Team>> = m::teams_from_ktxstats(&k).ok().map(|v| v.into_iter().map(team).collect());
        let sv = m::Server::from(&k);
        for q in &k.players {
            let _ = m::Player::from(q);
        }
        match p {
            "C12" => eq_players(&format!("players_from_ktxstats{}", what), &Some(o::players_of_stats(&k)), &ps),
            "C13" => match (&ps, &ts) {
                (Some(q), Some(t)) => eq_teams(&format!("teams_from_ktxstats{}", what), &o::teams(q), t),
                _ => eq("teams_from_ktxstats", &ps.map(|q| o::teams(&q)), &ts),
            },
            "C20" => {
                for _ in 0..8 {
                    eq(&format!("players_from_ktxstats{}", what), &ps, &v_players(m::players_from_ktxstats(&k)))?;
                    let t2: Option<Vec<o::Team>> = m::teams_from_ktxstats(&k).ok().map(|v| v.into_iter().map(team).collect());
                    eq(&format!("teams_from_ktxstats{}", what), &ts, &t2)?;
                }
                Ok(())
            }
            _ => {
                let _ = sv;
                Ok(())
            }
        }
    } else {
        let huge = (p == "C01" || p == "C13") && r.one_in(if big { 60 } else { 200 });
        let ps = list(&mut r, huge);
        let v: Vec<m::Player> = ps.iter().map(unplayer).collect();
        let what = cut(format!("(players {:?})", ps));
        let t: Vec<o::Team> = m::teams_from_players(&v).into_iter().map(team).collect();
        let one = team(m::Team::from(&v[..]));
        match p {
            "C13" => {
                eq_teams(&format!("teams_from_players{}", what), &o::teams(&ps), &t)?;
                eq(&format!("Team::from{}", what), &o::team(&ps), &one)
            }
            "C20" => {
                for _ in 0..8 {
                    let t2: Vec<o::Team> = m::teams_from_players(&v).into_iter().map(team).collect();
                    eq(&format!("teams_from_players{}", what), &t, &t2)?;
                    eq(&format!("Team::from{}", what), &one, &team(m::Team::from(&v[..])))?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

// ------------------------------------------------------------------ cases
enum Case {
    Data(Vec<u8>),
    Direct(u64),
}
fn has_direct(p: &str) -> bool {
    matches!(p, "C01" | "C12" | "C13" | "C20")
}
struct Files(Vec<Vec<u8>>);
fn files() -> Files {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/repo/tests/files") {
        let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        names.sort();
        for n in names {
            if n.extension().is_some_and(|e| e == "mvd") {
                v.extend(std::fs::read(n));
            }
        }
    }
    Files(v)
}
/// case number i of property p: the first ones are the recordings of the repository, whole
fn case(p: &str, seed: u64, i: u64, big: bool, fs: &Files) -> Case {
    let h = gen::Rng::new(seed.wrapping_mul(0x1_0000_01B3) ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next();
    let mut r = gen::Rng::new(h);
    if p != "C20" && (i as usize) < fs.0.len() {
        return Case::Data(fs.0[i as usize].clone());
    }
    if i as usize >= fs.0.len() {
        if let Some(d) = gen::giant(p, seed, i as usize - fs.0.len()) {
            return Case::Data(d);
        }
    }
    if !fs.0.is_empty() && p != "C20" && r.one_in(if big { 400 } else { 2000 }) {
        let mut d = r.pick(&fs.0).clone();
        if r.one_in(2) {
            let k = r.below(d.len());
            d.truncate(k);
        }
        gen::mutate(&mut r, &mut d);
        return Case::Data(d);
    }
    if has_direct(p) && r.one_in(4) {
        return Case::Direct(r.next());
    }
    Case::Data(gen::demo(p, r.next(), big))
}
fn run(p: &str, c: &Case, big: bool) -> R {
    PANIC.with(|x| x.borrow_mut().clear());
    let f = AssertUnwindSafe(|| match c {
        Case::Data(d) => check_data(p, d),
        Case::Direct(s) => check_direct(p, *s, big),
    });
    match catch_unwind(f) {
        Ok(r) => r,
        Err(_) => Err(Fail {
            query: "a query".into(),
            expected: "an ordinary result".into(),
            actual: PANIC.with(|x| x.borrow().clone()),
        }),
    }
}
fn minimise(p: &str, d: &[u8], f: Fail) -> (Vec<u8>, Fail) {
    let end = Instant::now() + Duration::from_millis(2500);
    let (mut d, mut f) = (d.to_vec(), f);
    let mut n = (d.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < d.len() {
            if Instant::now() > end {
                return (d, f);
            }
            let mut e = d.clone();
            e.drain(i..(i + n).min(d.len()));
            match run(p, &Case::Data(e.clone()), false) {
                Err(g) if g.query == f.query => {
                    d = e;
                    f = g;
                    any = true;
                }
                _ => i += n,
            }
        }
        if n == 1 && !any {
            return (d, f);
        }
        n = (n / 2).max(1);
    }
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r += "\\\"",
            '\\' => r += "\\\\",
            c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32),
            c => r.push(c),
        }
    }
    r + "\""
}
fn write_fail(out: &str, p: &str, seed: u64, i: u64, big: bool, data: Option<&[u8]>, f: &Fail) {
    let input = match data {
        Some(d) if d.len() <= 200_000 => js(&d.iter().map(|b| format!("{:02x}", b)).collect::<String>()),
        _ => "null".into(),
    };
    let text = format!(
        "{{\n \"property\": {},\n \"query\": {},\n \"expected\": {},\n \"actual\": {},\n \"case\": {{\"seed\": {}, \"index\": {}, \"big\": {}}},\n \"input_hex\": {},\n \"replay\": {}\n}}\n",
        js(p),
        js(&f.query),
        js(&f.expected),
        js(&f.actual),
        seed,
        i,
        big,
        input,
        js(if input == "null" { "vreplay one PROPERTY SEED INDEX BIG" } else { "vreplay data PROPERTY FILE (FILE: this one, or raw bytes)" })
    );
    std::fs::write(out, text).expect("write replay file");
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        PANIC.with(|x| *x.borrow_mut() = t);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let show = |f: &Fail| println!("FAILS query: {}\n expected: {}\n actual:   {}", f.query, f.expected, f.actual);
    match a.get(1).map(|s| s.as_str()) {
        Some("data") => {
            let mut d = std::fs::read(&a[3]).expect("read input");
            if let Ok(t) = std::str::from_utf8(&d) {
                if let Some(k) = t.find("\"input_hex\": \"") {
                    let t = &t[k + 14..];
                    let t = &t[..t.find('"').unwrap()];
                    d = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect();
                }
            }
            match run(&a[2], &Case::Data(d), false) {
                Ok(()) => println!("holds"),
                Err(f) => {
                    show(&f);
                    std::process::exit(1);
                }
            }
        }
        Some("one") => {
            let (s, i): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let big = a.get(5).is_some_and(|x| x == "true");
            match run(&a[2], &case(&a[2], s, i, big, &files()), big) {
                Ok(()) => println!("holds"),
                Err(f) => {
                    show(&f);
                    std::process::exit(1);
                }
            }
        }
        Some("answers") => {
            let mut d = vec![];
            std::io::Read::read_to_end(&mut std::io::stdin(), &mut d).expect("read input");
            let r = everything(&d);
            let mut o = String::new();
            for (_, x) in r {
                o += &x;
                o.push('\n');
            }
            let _ = std::io::stdout().write_all(o.as_bytes());
        }
        Some("shims") => {
            let (names, n, bad) = shims::run();
            println!("{{\"contracts\": {:?}, \"cases\": {n}, \"disagreements\": {:?}}}", names, bad);
            if !bad.is_empty() {
                std::process::exit(1);
            }
        }
        Some("fuzz") => fuzz(
            &a[2],
            opt("--seed", "1").parse().unwrap(),
            opt("--secs", "8").parse().unwrap(),
            opt("--cases", "18446744073709551615").parse().unwrap(),
            &opt("--out", "/dev/null"),
            &opt("--inflight", ""),
            opt("--big", "false") == "true",
        ),
        _ => {
            eprintln!("usage: vreplay fuzz P [--seed N] [--secs T] [--cases N] [--big true] [--out FILE] [--inflight FILE] | one P SEED INDEX [BIG] | data P FILE");
            std::process::exit(2);
        }
    }
}

fn fuzz(p: &str, seed: u64, secs: f64, cases: u64, out: &str, inflight: &str, big: bool) {
    let fs = files();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
    let t0 = Instant::now();
    let n = 8;
    let slots: Vec<(AtomicU64, AtomicU64)> = (0..n).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
    let running = AtomicU64::new(n as u64);
    let infl = if inflight.is_empty() { None } else { std::fs::File::create(inflight).ok() };
    let limit_ms = 60_000;
    std::thread::scope(|s| {
        for t in 0..n {
            let (fs, next, done, stop, found, slots, running, infl) = (&fs, &next, &done, &stop, &found, &slots, &running, &infl);
            s.spawn(move || {
                while !stop.load(SeqCst) && Instant::now() < end {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= cases {
                        break;
                    }
                    slots[t].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                    slots[t].0.store(i, SeqCst);
                    if let Some(f) = infl {
                        let _ = f.write_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                    }
                    let c = case(p, seed, i, big, fs);
                    if let Err(f) = run(p, &c, big) {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().is_none_or(|x| x.0 > i) {
                            *g = Some((i, f));
                        }
                        stop.store(true, SeqCst);
                        break;
                    }
                    done.fetch_add(1, SeqCst);
                }
                slots[t].0.store(u64::MAX, SeqCst);
                running.fetch_sub(1, SeqCst);
            });
        }
        // the watchdog
        while running.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            for sl in &slots {
                let (i, st) = (sl.0.load(SeqCst), sl.1.load(SeqCst));
                let now = t0.elapsed().as_millis() as u64;
                if i != u64::MAX && now > st + limit_ms {
                    let c = case(p, seed, i, big, &fs);
                    let f = Fail { query: "a query".into(), expected: "an answer".into(), actual: format!("still running after {} s", limit_ms / 1000) };
                    let d = if let Case::Data(d) = &c { Some(&d[..]) } else { None };
                    write_fail(out, p, seed, i, big, d, &f);
                    println!("found after {} cases: {} / {}", done.load(SeqCst), f.query, f.actual);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        }
    });
    let g = found.lock().unwrap().take();
    if let Some((i, f)) = g {
        let c = case(p, seed, i, big, &fs);
        match c {
            Case::Data(d) => {
                let (d, f) = minimise(p, &d, f);
                write_fail(out, p, seed, i, big, Some(&d), &f);
                println!("found after {} cases:", done.load(SeqCst));
                show_fail(&f);
            }
            Case::Direct(_) => {
                write_fail(out, p, seed, i, big, None, &f);
                println!("found after {} cases:", done.load(SeqCst));
                show_fail(&f);
            }
        }
        std::process::exit(1);
    }
    println!("{{\"cases\": {}, \"seconds\": {:.1}, \"seed\": {}}}", done.load(SeqCst), t0.elapsed().as_secs_f64(), seed);
}
fn show_fail(f: &Fail) {
    println!("FAILS query: {}\n expected: {}\n actual:   {}", f.query, f.expected, f.actual);
}
