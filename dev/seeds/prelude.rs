#![allow(dead_code, unused_imports, clippy::all)]
use mvdparser::all::*;

/// a frame with a payload, sent to everybody
fn frame(ms: u8, body: &[u8]) -> Vec<u8> {
    let mut f = vec![ms, 6];
    f.extend_from_slice(&(body.len() as u32).to_le_bytes());
    f.extend_from_slice(body);
    f
}
fn print(id: u8, text: &[u8]) -> Vec<u8> {
    let mut p = vec![8, id];
    p.extend_from_slice(text);
    p.push(0);
    p
}
fn frags_update(number: u8, v: u16) -> Vec<u8> {
    let mut p = vec![14, number];
    p.extend_from_slice(&v.to_le_bytes());
    p
}
fn ping_update(number: u8, v: u16) -> Vec<u8> {
    let mut p = vec![36, number];
    p.extend_from_slice(&v.to_le_bytes());
    p.extend_from_slice(&[53, number, 0]);
    p
}
/// the frame holding the spawn command and the client strings
fn clients_body(infos: &[&str]) -> Vec<u8> {
    let mut b = b"\x09cmd spawn 1 0\n\0".to_vec();
    for i in infos {
        b.extend_from_slice(&[40, 0, 0, 0, 0, 0]);
        b.extend_from_slice(i.as_bytes());
        b.push(0);
    }
    b
}
fn serverinfo_body(s: &str) -> Vec<u8> {
    format!("\x09fullserverinfo \"{s}\"\n\0").into_bytes()
}
/// embedded statistics split into blocks of the given sizes, as multi-recipient frames for nobody
fn stats_blocks(text: &[u8], sizes: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut at = 0;
    let n = sizes.len();
    for (k, s) in sizes.iter().enumerate() {
        let part = &text[at..at + s];
        at += s;
        let mut body = vec![];
        body.extend_from_slice(&(part.len() as u32 + 2).to_le_bytes());
        body.extend_from_slice(&3u16.to_le_bytes());
        body.extend_from_slice(&(if k + 1 == n { 0 } else { k as u16 + 1 }).to_le_bytes());
        body.extend_from_slice(part);
        out.extend_from_slice(&[0, 3, 0, 0, 0, 0]);
        out.extend_from_slice(&(body.len() as u32).to_le_bytes());
        out.extend_from_slice(&body);
    }
    out
}
fn player(name: &str, team: &str, frags: i32, ping: u32, color: [u8; 2]) -> Player {
    Player { name: name.into(), team: team.into(), frags, ping, color, is_bot: false, auth_username: None, auth_cc: None }
}
fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}

