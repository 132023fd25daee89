//! Seeded input generators: recordings assembled from frames with the features a property talks about.

use crate::oracle::{self, PHRASES, ZONES};

const MARKERS: &[&[u8]] = &[
    b"Server is paused",
    b"paused the game",
    b"The match is over",
    b"4status\0Standby\0",
    b"\x08\x02matchdate: ",
    b"fullserverinfo \"",
    b"\x09cmd spawn",
    b"\\name\\",
    b"{\"version\": ",
    b"\"bot\": {",
    b"\x08\x02\xCD\xE1\xF4\xE3\xE8\x20\xF3\xF4\xEF\xF0\xF0\xE5\xE4\x20\xE2\xF9\x20\xED\xE1\xEA\xEF\xF2\xE9\xF4\xF9\x20\xF6\xEF\xF4\xE5\x0A\0",
];

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
}

fn int_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "0".into(),
        1 => "1".into(),
        2 => "255".into(),
        3 => "256".into(),
        4 => "-1".into(),
        5 => "2147483647".into(),
        6 => "2147483648".into(),
        7 => "-2147483648".into(),
        8 => "".into(),
        9 => "x".into(),
        10 => format!("{}", r.below(1000)),
        _ => format!("{}", r.below(14)),
    }
}

pub struct W {
    pub r: Rng,
    pub out: Vec<u8>,
    pub names: Vec<Vec<u8>>,
    pub teams: Vec<Vec<u8>>,
    pub clients: Vec<(Vec<u8>, Vec<u8>)>,
}

impl W {
    pub fn new(seed: u64) -> W {
        let mut w = W { r: Rng::new(seed), out: vec![], names: vec![], teams: vec![], clients: vec![] };
        let n = w.r.range(1, 6);
        for _ in 0..n {
            let v = w.name();
            w.names.push(v);
        }
        if w.r.one_in(3) {
            // names that share a prefix or differ in case or colour only
            let a = w.names[0].clone();
            let mut b = a.clone();
            b.push(*w.r.pick(b"x \x85\xa0.1"));
            w.names.push(b);
            w.names.push(a.iter().map(|c| c.to_ascii_uppercase()).collect());
            w.names.push(a.iter().map(|c| if *c > 31 { c | 128 } else { *c }).collect());
        }
        let n = w.r.range(1, 4);
        for _ in 0..n {
            let v = match w.r.below(6) {
                0 => vec![],
                1 => b"Red".to_vec(),
                2 => b"red".to_vec(),
                3 => b"\xf2ed".to_vec(),
                _ => w.name(),
            };
            w.teams.push(v);
        }
        w
    }

    /// a player name: anything without zero, line break, backslash, quote
    pub fn name(&mut self) -> Vec<u8> {
        let r = &mut self.r;
        let fixed: &[&[u8]] = &[
            b"foo", b"bar", b"a", b"Final", b": Timber", b"> bot", b"\x10x\x11", b"axe man", b"1", b"foo bar baz", b"", b" ",
            b"was", b"by", b"flag", b"the RED", b"s", b"'s", b"he said", b"d\x85", b"d\xa0", b"\xe1\xe4\xe7\xef", b"b\xcf\xcfm", b"o.o", b"??",
            b"his", b"teammate", b"rides", b"print", b"\x08x", b"x\x0e", b"$x", b"{x}", b"a%s", b"rocket", b"a'b", b"\x01", b"\xff\xfe",
            b"\"", b"x\"", b"\"??\"", b"say \"hi\"",
        ];
        if r.one_in(2) {
            return r.pick(fixed).to_vec();
        }
        let n = r.range(1, if r.0 % 7 == 0 { 40 } else { 8 });
        (0..n)
            .map(|_| loop {
                let c = if r.one_in(3) { r.byte() } else { b'a' + r.below(26) as u8 };
                if ![0, 10, b'\\', b'"'].contains(&c) {
                    return c;
                }
            })
            .collect()
    }
    pub fn a_name(&mut self) -> Vec<u8> {
        if self.r.one_in(8) {
            self.name()
        } else {
            self.r.pick(&self.names).clone()
        }
    }
    fn dur(&mut self) -> u8 {
        match self.r.below(5) {
            0 => 0,
            1 => 255,
            2 => self.r.byte(),
            _ => 13,
        }
    }
    /// a frame of a kind that carries a length
    pub fn frame(&mut self, body: &[u8]) {
        let kind = *self.r.pick(&[1u8, 3, 4, 5, 6]);
        let d = self.dur();
        self.frame_as(kind, d, body.len() as u32, body);
    }
    pub fn frame_as(&mut self, kind: u8, dur: u8, size: u32, body: &[u8]) {
        let hi = if self.r.one_in(2) { 0 } else { self.r.byte() & 0xf8 };
        self.out.push(dur);
        self.out.push(kind | hi);
        if kind == 3 {
            for _ in 0..4 {
                let b = if self.r.one_in(2) { 0 } else { self.r.byte() };
                self.out.push(b);
            }
        }
        self.out.extend_from_slice(&size.to_le_bytes());
        self.out.extend_from_slice(body);
    }
    /// a frame without payload, a setup frame or an empty one
    pub fn odd_frame(&mut self) {
        let d = self.dur();
        let hi = if self.r.one_in(2) { 0 } else { self.r.byte() & 0xf8 };
        match self.r.below(4) {
            0 => {
                self.out.push(d);
                self.out.push(2 | hi);
                for _ in 0..8 {
                    let b = match self.r.below(4) {
                        0 => 8,
                        1 => 0,
                        _ => self.r.byte(),
                    };
                    self.out.push(b);
                }
            }
            1 => self.frame(&[]),
            2 => {
                self.out.push(d);
                self.out.push(hi);
            }
            _ => {
                self.out.push(d);
                self.out.push(7 | hi);
            }
        }
    }
    pub fn junk(&mut self, max: usize) -> Vec<u8> {
        let n = self.r.below(max + 1);
        (0..n)
            .map(|_| match self.r.below(6) {
                0 => 0,
                1 => 8,
                2 => *self.r.pick(&[14u8, 36, 1, 2, 3, 255, 10]),
                _ => self.r.byte(),
            })
            .collect()
    }
    pub fn print(&mut self, id: u8, text: &[u8]) -> Vec<u8> {
        let mut v = vec![8, id];
        v.extend(text.iter().filter(|&&c| c != 0));
        v.push(0);
        v
    }
    fn text(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => vec![],
            1 => b"x".to_vec(),
            2 => b"hello\n".to_vec(),
            3 => b"\x08\x01hi".to_vec(),
            4 => {
                let n = match self.r.below(60) {
                    0 => *self.r.pick(&[1022, 1023, 1024, 1025, 2048, 4095, 4096, 5000]),
                    1 if self.r.one_in(8) => *self.r.pick(&[32_768, 65_533, 65_535, 65_536, 70_000]),
                    _ => self.r.range(200, 700),
                };
                vec![b'y'; n]
            }
            5 => self.name(),
            _ => {
                let n = self.r.range(1, 6);
                (0..n).map(|_| self.r.byte() | 1).collect()
            }
        }
    }
    fn sev(&mut self) -> u8 {
        match self.r.below(8) {
            0 => 4,
            1 => self.r.byte(),
            2 => 255,
            _ => self.r.below(4) as u8,
        }
    }
    pub fn print_frame(&mut self) {
        let mut b = vec![];
        let n = if self.r.one_in(60) { self.r.range(6, 300) } else { self.r.below(5) };
        let mut last: Option<(u8, Vec<u8>)> = None;
        for _ in 0..n {
            let (id, t) = match (&last, self.r.below(4)) {
                (Some((i, t)), 0) => (*i, t.clone()),
                (Some((i, t)), 1) => {
                    match self.r.below(4) {
                        0 | 1 => (self.r.below(4) as u8, t.clone()),
                        2 => {
                            // nearly the same
                            let mut t = t.clone();
                            match (self.r.below(3), t.is_empty()) {
                                (0, false) => *t.last_mut().unwrap() ^= 128 | self.r.below(2) as u8,
                                (1, false) => {
                                    t.pop();
                                }
                                _ => t.push(*self.r.pick(b"\n x")),
                            }
                            (*i, t.into_iter().map(|c| c.max(1)).collect())
                        }
                        _ => (*i, self.text()),
                    }
                }
                _ => (self.sev(), self.text()),
            };
            last = Some((id, t.clone()));
            let p = self.print(id, &t);
            b.extend(p);
        }
        match self.r.below(6) {
            0 => b.extend(self.junk(6)),
            1 => {
                // something else, then a print that is not in the leading run
                b.push(14);
                let t = self.text();
                let p = self.print(1, &t);
                b.extend(p);
            }
            2 => {
                b.pop(); // unterminated
            }
            3 => b.extend([8]),
            _ => {}
        }
        self.frame(&b);
        if self.r.one_in(4) {
            // the same again: a repeat across frames
            let b2 = b.clone();
            self.frame(&b2);
        }
    }
    pub fn obit_text(&mut self) -> Vec<u8> {
        let ph = &PHRASES[self.r.below(PHRASES.len())];
        let mut v = self.a_name();
        let two = matches!(ph.kind, oracle::Kind::KillerFirst | oracle::Kind::VictimFirst);
        v.extend_from_slice(ph.pre.as_bytes());
        if two {
            let y = self.a_name();
            v.extend(y);
            if self.r.one_in(12) {
                v.extend_from_slice(ph.post.as_bytes()); // a name that contains the end of the phrase
                if self.r.one_in(2) {
                    v.push(b'x');
                }
            }
            v.extend_from_slice(ph.post.as_bytes());
        }
        match self.r.below(20) {
            0 => {
                v.pop();
            }
            1 => {
                v.extend_from_slice(b"!");
            }
            2 => {
                v = v.iter().map(|c| c.to_ascii_uppercase()).collect();
            }
            _ => {}
        }
        if !self.r.one_in(6) {
            v.push(10);
            if self.r.one_in(8) {
                // more than one line end, or something after it
                v.extend_from_slice(self.r.pick::<&[u8]>(&[b"\n", b"\n", b"\n\n", b"\n\n\n", b" \n", b"\nx\n", b"\r\n", b"\x8a"]));
            }
        }
        v
    }
    pub fn obit_frame(&mut self) {
        let mut b = vec![];
        match self.r.below(14) {
            0 => b.push(1),
            1 => {
                let t = self.text();
                let s = self.sev();
                b = self.print(s, &t); // the obituary is not the first message
            }
            _ => {}
        }
        let t = self.obit_text();
        let id = match self.r.below(10) {
            0 => self.sev(),
            _ => 1,
        };
        let p = self.print(id, &t);
        b.extend(p);
        match self.r.below(5) {
            0 => b.extend(self.junk(5)),
            1 => {
                let t = self.obit_text();
                let p = self.print(1, &t);
                b.extend(p); // a second obituary in the frame
            }
            2 => b.extend(self.frag_update()),
            _ => {}
        }
        if self.r.one_in(25) {
            b.truncate(b.len() / 2);
        }
        self.frame(&b);
    }
    pub fn frag_update(&mut self) -> Vec<u8> {
        let n = self.r.below(self.clients.len().max(3) + 1) as u8;
        let mut v = vec![14, n, self.r.byte(), self.r.byte()];
        if self.r.one_in(12) {
            v.truncate(self.r.range(1, 3));
        }
        v
    }
    /// a team kill by somebody unnamed, and what follows it
    pub fn team_kill(&mut self) {
        let ph: Vec<_> = PHRASES.iter().filter(|p| p.kind == oracle::Kind::ByUnknown).collect();
        let ph = ph[self.r.below(ph.len())];
        let mut t = if !self.clients.is_empty() && !self.r.one_in(8) {
            let i = self.r.below(self.clients.len());
            self.clients[i].0.clone()
        } else {
            self.a_name()
        };
        t.extend_from_slice(ph.pre.as_bytes());
        t.push(10);
        let mut b = self.print(1, &t);
        match self.r.below(4) {
            0 | 1 => {
                b.extend(self.frag_update());
                if self.r.one_in(3) {
                    b.extend(self.frag_update());
                }
            }
            2 => b.extend(self.junk(4)),
            _ => {}
        }
        self.frame(&b);
        for _ in 0..self.r.range(0, 5) {
            match self.r.below(7) {
                0 => self.odd_frame(),
                1 => {
                    let j = self.junk(5);
                    self.frame(&j)
                }
                2 => {
                    let mut j = self.print(0, b"x");
                    j.extend(self.frag_update());
                    self.frame(&j)
                }
                _ => {
                    let mut u = self.frag_update();
                    if self.r.one_in(2) {
                        u.extend(self.frag_update());
                    }
                    self.frame(&u)
                }
            }
        }
    }
    pub fn ping_frame(&mut self) {
        let mut b = vec![];
        let n = if self.r.one_in(30) { self.r.range(6, 70) } else { self.r.range(1, 5) };
        let top = self.clients.len().max(3);
        for i in 0..n {
            let num = match self.r.below(6) {
                0 => self.r.byte(),
                1 => 0,
                _ => self.r.below(top + 1) as u8,
            };
            let ping: u16 = match self.r.below(6) {
                0 => 65535,
                1 => 0,
                2 => 10,
                3 => self.r.next() as u16,
                _ => self.r.below(300) as u16,
            };
            b.push(36);
            b.push(num);
            b.extend(ping.to_le_bytes());
            b.push(if self.r.one_in(8) { self.r.byte() } else { 53 });
            b.push(num);
            b.push(if self.r.one_in(3) { 36 } else { self.r.byte() });
            if i + 1 == n && self.r.one_in(5) {
                let k = self.r.range(1, 6);
                b.truncate(b.len() - k);
            }
        }
        match self.r.below(6) {
            0 => b.extend(self.junk(8)),
            1 => {
                let mut c = self.junk(3);
                if c.is_empty() {
                    c.push(1);
                }
                c.extend(&b);
                b = c; // does not open the frame
            }
            _ => {}
        }
        self.frame(&b);
    }
    pub fn flag_frame(&mut self) {
        let mut b = vec![];
        if self.r.one_in(4) {
            b = self.junk(5);
            b.retain(|&c| c != 8 || self.r.0 % 2 == 0);
        }
        for _ in 0..self.r.range(1, 4) {
            let (k, ph) = *self.r.pick(oracle::FLAG_PHRASES);
            let ph: Vec<u8> = ph.chars().map(|c| c as u8).collect();
            let mut name = self.a_name();
            let id = if self.r.one_in(10) { self.sev() } else { 2 };
            if k <= 2 && self.r.one_in(2) {
                // name and phrase as two prints
                if self.r.one_in(6) {
                    name = vec![];
                }
                let p = self.print(id, &name);
                b.extend(p);
                if self.r.one_in(8) {
                    let t = self.text();
                    let s = self.sev();
                    let p = self.print(s, &t);
                    b.extend(p);
                }
                let p = self.print(2, &ph);
                b.extend(p);
            } else {
                name.extend(&ph);
                if self.r.one_in(12) {
                    name.pop();
                }
                let p = self.print(id, &name);
                b.extend(p);
            }
            match self.r.below(8) {
                0 => b.extend(self.junk(4)),
                1 => {
                    let t = self.text();
                    let p = self.print(2, &t);
                    b.extend(p);
                }
                2 => b.push(14),
                _ => {}
            }
        }
        if self.r.one_in(12) {
            b.pop();
        }
        self.frame(&b);
    }
    pub fn settings_frame(&mut self) {
        let mut t = b"fullserverinfo \"".to_vec();
        if !self.r.one_in(10) {
            t.extend(b"\\maxfps\\77");
            match self.r.below(5) {
                0 => t.extend(b"\\mode\\hoonymode"),
                1 => {
                    let m: &[&[u8]] = &[b"hoonymod", b"hoonymode2", b"HoonyMode", b"hoonymode ", b" hoonymode"];
                    t.extend(b"\\mode\\");
                    t.extend(*self.r.pick(m))
                }
                2 => t.extend(b"\\mode\\duel"),
                3 => t.extend(b"\\mode\\ffa\\hoonymode\\mode"),
                _ => {}
            }
            match self.r.below(4) {
                0 => {}
                _ => {
                    let v = match self.r.below(5) {
                        0 => int_text(&mut self.r),
                        _ => format!("{}", self.r.below(2_000_000_000)),
                    };
                    t.extend(format!("\\epoch\\{}", v).bytes());
                }
            }
            match self.r.below(4) {
                0 => {}
                1 => t.extend(b"\\serverdemo\\\\x\\1"),
                _ => {
                    t.extend(b"\\serverdemo\\");
                    let n = self.name();
                    t.extend(n);
                    t.extend(b".mvd");
                }
            }
            for _ in 0..self.r.below(4) {
                let c = if self.r.one_in(2) { self.r.byte() } else { b'z' };
                if c != b'"' {
                    t.push(c);
                }
            }
        }
        if !self.r.one_in(12) {
            t.push(b'"');
        }
        t.extend(b"\n\0");
        if self.r.one_in(6) {
            // a settings opening before it
            let mut u = b"fullserverinfo \"\"".to_vec();
            u.extend(t);
            t = u;
        }
        if self.r.one_in(4) {
            // near the end of the window
            let want = 1280usize.saturating_sub(t.len() + self.r.range(0, 6));
            while self.out.len() + 30 < want {
                let n = (want - self.out.len()).min(100) - 20;
                let b = vec![1u8; n];
                self.frame(&b);
            }
            while self.out.len() + 12 < want + self.r.below(12) {
                self.out.extend([0, 0]);
            }
        }
        let mut b = vec![9];
        b.extend(t);
        self.frame(&b);
    }
    pub fn client_string(&mut self) -> Vec<u8> {
        let name = self.a_name();
        let team = self.r.pick(&self.teams).clone();
        let mut parts: Vec<Vec<u8>> = vec![];
        let kv = |k: &[u8], v: &[u8]| [b"\\", k, b"\\", v].concat();
        parts.push(kv(b"name", &name));
        if !self.r.one_in(6) {
            parts.push(kv(b"team", &team));
        }
        for k in [&b"topcolor"[..], b"bottomcolor"] {
            if !self.r.one_in(5) {
                let v = if self.r.one_in(5) { int_text(&mut self.r) } else { format!("{}", self.r.below(14)) };
                parts.push(kv(k, v.as_bytes()));
            }
        }
        for k in [&b"*spectator"[..], b"*bot"] {
            if self.r.one_in(3) {
                let v = if self.r.one_in(2) { int_text(&mut self.r) } else { "1".to_string() };
                parts.push(kv(k, v.as_bytes()));
            }
        }
        if self.r.one_in(4) {
            let v = self.name();
            parts.push(kv(b"*auth", &v));
        }
        if self.r.one_in(4) {
            parts.push(kv(b"*flag", b"se"));
        }
        if self.r.one_in(5) {
            parts.push(kv(b"*client", b"ezQuake 1"));
        }
        if self.r.one_in(8) {
            parts.push(kv(b"chat", b"1"));
        }
        if self.r.one_in(2) {
            // any order
            for i in (1..parts.len()).rev() {
                let j = self.r.below(i + 1);
                parts.swap(i, j);
            }
        }
        let mut s = parts.concat();
        if self.r.one_in(25) {
            // around the longest allowed length
            let want = self.r.range(254, 259);
            s.extend(b"\\x\\");
            while s.len() < want {
                s.push(b'q');
            }
        }
        if self.r.one_in(60) {
            s = b"\\name\\".to_vec();
            s.extend(vec![b'n'; self.r.below(3)]);
        }
        self.clients.push((name, team));
        s
    }
    /// the spawn marker followed by client descriptions
    pub fn clients_block(&mut self, n: usize) {
        let mut b = vec![9];
        if self.r.one_in(6) {
            b.extend(b"\\name\\early\0"); // before the marker
            b.push(9);
        }
        b.extend(b"cmd spawn 7 0\n\0");
        // blocks of long descriptions, or of ones far apart, reach the end of
        // the searched region (24 * 512 bytes from the marker)
        let long = n > 15 && self.r.one_in(2);
        let apart = n > 15 && self.r.one_in(4);
        for i in 0..n {
            let gap = match self.r.below(24) {
                0 => self.r.range(480, 520),
                1 => self.r.below(400),
                2 => 0,
                _ => self.r.below(8),
            };
            if self.r.one_in(3) {
                b.push(40);
                b.push(i as u8);
                b.extend([1, 0, 0]);
            }
            b.extend(vec![7u8; gap]);
            if self.r.one_in(10) {
                // 512 exactly: the window counts from the previous end
                let want = self.r.range(500, 516);
                b.extend(vec![7u8; want.saturating_sub(gap)]);
            }
            b.push(0);
            let mut s = self.client_string();
            if long {
                let want = self.r.range(170, 257);
                if s.len() + 4 < want {
                    s.extend(b"\\x\\");
                    while s.len() < want {
                        s.push(b'q');
                    }
                }
            }
            if apart {
                let g = self.r.range(150, 470);
                b.extend(vec![7u8; g]);
                b.push(0);
            }
            b.extend(s);
            b.push(0);
        }
        if long && self.r.one_in(3) {
            // a description ends (almost) exactly where the searched region does
            let at = 24 * 512 + b.windows(10).position(|x| x == b"\x09cmd spawn").unwrap_or(0) + self.r.range(0, 2) - 1;
            while b.len() < at {
                b.push(0);
                let room = at - b.len();
                let n = if room <= 250 { room } else { 200.min(room - 20) };
                let mut s = b"\\name\\n".to_vec();
                while s.len() < n {
                    s.push(b'q');
                }
                b.extend(s);
            }
            b.push(0);
            b.extend(b"\0\\name\\after\0\0\\name\\more\0");
        }
        if self.r.one_in(5) {
            // a longer gap, then something that is not reached
            b.extend(vec![5u8; 600]);
            b.extend(b"\0\\name\\late\0");
        }
        if self.r.one_in(20) {
            b.pop();
        }
        self.frame(&b);
    }
    pub fn date_text(&mut self) -> Vec<u8> {
        let r = &mut self.r;
        let mut t = format!(
            "{:04}-{:02}-{:02} {:02}:{:02}:{:02}",
            *r.pick(&[1970, 1999, 2000, 2020, 2024, 2038, 2100, 9999, 1969, 1900, 1]),
            r.range(1, 12),
            r.range(1, 31),
            r.range(0, 24),
            r.range(0, 60),
            r.range(0, 60)
        );
        match r.below(30) {
            0 => t = t.replacen('-', "/", 1),
            1 => t = t.replacen('2', "é", 1),
            2 => {
                t.pop();
            }
            _ => {}
        }
        let sep = if r.one_in(15) { *r.pick(&["", "  ", "T", "é", "+"]) } else { " " };
        let z = match r.below(8) {
            0..=3 => r.pick(ZONES).0.to_string(),
            4 => format!("{}{:02}", r.pick(&["+", "-"]), r.below(14)),
            5 => format!("{}{:02}{:02}", r.pick(&["+", "-"]), r.below(14), r.below(75)),
            6 => {
                let v = format!("{}{:02}:{:02}", r.pick(&["+", "-"]), r.below(13), r.below(60));
                if r.one_in(3) {
                    v[..r.range(1, v.len())].to_string()
                } else {
                    v
                }
            }
            7 if r.one_in(2) => {
                let n = r.range(1, 7);
                let mut v = r.pick(&["+", "-", ""]).to_string();
                while v.len() < n {
                    v.push(*r.pick(&['0', '1', '2', '9', '0', '0', ':', ':', '+', '-', ' ', 'A']));
                }
                v
            }
            _ => r.pick(&["ABC", "XX", "cet", "CES", "CESTX", "+1", "-1", "+12", "+1200", "+1201", "+1300", "-1200", "++12", "+-1", "é", "+é", "+1é", "UTC ", "", "+99:9", "Z", "GMT+1"]).to_string(),
        };
        let mut v = t.into_bytes();
        v.extend(sep.bytes());
        v.extend(z.bytes());
        if r.one_in(40) {
            v.push(0xe9);
        }
        if r.one_in(25) {
            // characters that are easily trimmed
            let c = *r.pick(&[b'\r', b' ', b'\t', 0, b'\x0b', b'"']);
            if r.one_in(3) {
                v.insert(0, c);
            } else {
                v.push(c);
            }
        }
        v
    }
    pub fn date_frame(&mut self) {
        let t = self.date_text();
        let mut b = vec![];
        if self.r.one_in(6) {
            b.extend(b"matchdate: ");
        }
        if self.r.one_in(8) {
            b.extend(b"\x08\x01matchdate: 2001-01-01 01:01:01 CET\n\0");
        }
        b.extend(b"\x08\x02matchdate: ");
        b.extend(t);
        if !self.r.one_in(15) {
            b.push(10);
        }
        b.push(0);
        self.frame(&b);
        if self.r.one_in(5) {
            // a later one does not count
            let t = self.date_text();
            let mut b = b"\x08\x02matchdate: ".to_vec();
            b.extend(t);
            b.extend(b"\n\0");
            self.frame(&b);
        }
    }
    pub fn marker_frame(&mut self) {
        let m: &[&[u8]] = &[
            b"The match is over",
            b"The match is ove",
            b"4status\0Standby\0",
            b"4status\0Countdown\0",
            b"Server is paused",
            b"Server is pause",
            b"somebody paused the game\n",
            b"unpaused the gam",
            b"EndOfDemo",
            b"\x08\x02\xcd\xe1\xf4\xe3\xe8 \xf3\xf4\xef\xf0\xf0\xe5\xe4 \xe2\xf9 \xed\xe1\xea\xef\xf2\xe9\xf4\xf9 \xf6\xef\xf4\xe5\n\0",
            b"\x08\x02\xcd\xe1\xf4\xe3\xe8 \xf3\xf4\xef\xf0\xf0\xe5\xe4 \xe2\xf9 \xed\xe1\xea\xef\xf2\xe9\xf4\xf9 \xf6\xef\xf4\xe5\0",
            b"\x08\x01\xcd\xe1\xf4\xe3\xe8 \xf3\xf4\xef\xf0\xf0\xe5\xe4 \xe2\xf9 \xed\xe1\xea\xef\xf2\xe9\xf4\xf9 \xf6\xef\xf4\xe5\n\0",
            b"\x08\x02Match stopped by majority vote\n\0",
            b"\"bot\": {",
            b"\"bot\": [",
        ];
        let mut b = if self.r.one_in(3) { vec![] } else { vec![1] };
        b.extend(*self.r.pick(m));
        if self.r.one_in(3) {
            b.extend(self.junk(4));
        }
        self.frame(&b);
    }
    pub fn json(&mut self) -> Vec<u8> {
        let mut s = String::from("{\"version\": 3, ");
        if self.r.one_in(2) {
            s += "\"date\": \"2024-04-26 17:09:29 +0200\", ";
        }
        s += &format!("\"map\": \"dm{}\", ", self.r.below(9));
        if !self.r.one_in(4) {
            s += &format!(
                "\"hostname\": \"{}\", \"ip\": \"{}\", \"port\": {}, ",
                self.r.pick(&["QUAKE.SE KTX:28501", "", "håst", "a\\nb", " Spaced ", "x:", "UPPER"]),
                self.r.pick(&["46.227.68.148", "::1", "", "qw.foppa.dk.", " 1.2.3.4 ", "[::1]", "Host", "h:27500", "0.0.0.0"]),
                self.r.pick(&[0u32, 1, 28501, u32::MAX])
            );
        }
        if !self.r.one_in(5) {
            let d = match self.r.below(10) {
                0 => "0".to_string(),
                1 => "4294967295".to_string(),
                2 => "1200 ".to_string(),
                3 => " 7".to_string(),
                4 => "1e3".to_string(),
                5 => "-5".to_string(),
                6 => self.r.pick(&["12.5", "0.5", "0.001", "0.0004", "1e-3", "0.999999999", "59.9999"]).to_string(),
                7 => match self.r.below(3) {
                    0 => "1e300".to_string(),
                    1 => format!("{}.{:09}", self.r.below(4000), self.r.below(1_000_000_000)),
                    _ => (0..self.r.below(40)).map(|_| *self.r.pick(&['é', '1', '0', ' ', '.', '€', 'x'])).collect(),
                },
                _ => format!("{}", self.r.below(4000)),
            };
            s += &format!("\"duration\": {}, ", d);
        }
        if self.r.one_in(6) {
            s += "\"duration\": 99, ";
        }
        s += "\"mode\": \"team\", \"players\": [";
        let n = self.r.below(7);
        let mut at = s.len();
        for i in 0..n {
            if i > 0 {
                s += ", ";
                if self.r.one_in(20) {
                    // the same entry again
                    let again = s[at..].to_string();
                    s += &again;
                }
                at = s.len();
            }
            let name = self.a_name();
            let team = self.r.pick(&self.teams).clone();
            let esc = |v: &[u8]| -> String {
                v.iter()
                    .map(|&c| match c {
                        0..=31 => format!("\\u{:04x}", c),
                        b'"' | b'\\' => format!("\\{}", c as char),
                        _ => (c as char).to_string(),
                    })
                    .collect()
            };
            let num = |r: &mut Rng| -> i64 {
                match r.below(8) {
                    0 => i32::MAX as i64,
                    1 => i32::MIN as i64,
                    2 => -(r.below(50) as i64),
                    3 => 10,
                    4 => 256,
                    _ => r.below(60) as i64,
                }
            };
            s += &format!(
                "{{\"top-color\": {}, \"bottom-color\": {}, \"ping\": {}, \"login\": \"{}\", \"name\": \"{}\", \"team\": \"{}\", \"stats\": {{\"frags\": {}, \"deaths\": 3}}",
                num(&mut self.r),
                num(&mut self.r),
                num(&mut self.r),
                *self.r.pick(&["", "", "", "logn", "logn", "a b", " ", "0", "\\t"]),
                esc(&name),
                esc(&team),
                num(&mut self.r)
            );
            if self.r.one_in(3) {
                s += ", \"bot\": {\"skill\": 10, \"customised\": false}";
            }
            s += "}";
        }
        s += "]";
        if self.r.one_in(8) {
            s += ", \"x\": {\n\"y\": {}\n}\n";
        }
        if !self.r.one_in(10) {
            s += *self.r.pick(&["}", "}", "}\n", "\n}\n"]);
        }
        if self.r.one_in(12) {
            s += " x";
        }
        s.into_bytes()
    }
    /// the statistics as consecutive blocks
    pub fn stats_blocks(&mut self) {
        let j = self.json();
        let parts = self.r.range(1, 4);
        let mut cut: Vec<usize> = (0..parts - 1)
            .map(|_| {
                let c = self.r.range(13.min(j.len()), j.len());
                if !self.r.one_in(4) {
                    return c;
                }
                // right behind a closing bracket
                let c = c + j[c..].iter().position(|b| *b == b'}').map_or(0, |k| k + 1);
                c + usize::from(j.get(c) == Some(&b'\n') && self.r.one_in(2))
            })
            .collect();
        cut.sort();
        cut.push(j.len());
        let mut a = 0;
        for (i, &e) in cut.iter().enumerate() {
            let last = i + 1 == parts;
            let number: u16 = if last && !self.r.one_in(10) { 0 } else { i as u16 + 1 };
            let number = if self.r.one_in(15) && !last { 256 } else { number };
            let kind: u16 = if self.r.one_in(25) { *self.r.pick(&[0, 1, 2, 4, 5, 259, 0xffff]) } else { 3 };
            self.block(kind, number, &j[a..e]);
            a = e;
            if self.r.one_in(30) {
                self.odd_frame();
            }
        }
        match self.r.below(8) {
            0 => {
                let t = self.junk(9);
                self.block(3, 5, &t); // a block behind the last one
            }
            1 => {
                let t = self.text();
                self.block(4, 1, &t);
            }
            _ => {}
        }
    }
    pub fn block(&mut self, kind: u16, number: u16, body: &[u8]) {
        let mut b = vec![];
        let mut len = body.len() as u32 + 2;
        match self.r.below(60) {
            0 => len = self.r.below(3) as u32,
            1 => len = *self.r.pick(&[u32::MAX, u32::MAX - 1, 0x8000_0000, 0x7fff_ffff]),
            2 => len += 1,
            3 => len = len.saturating_sub(1),
            _ => {}
        }
        b.extend(len.to_le_bytes());
        b.extend(kind.to_le_bytes());
        b.extend(number.to_le_bytes());
        b.extend_from_slice(body);
        let d = self.dur();
        // header of a multi-recipient frame without recipients
        self.out.push(d);
        self.out.push(if self.r.one_in(6) { 0xfb } else { 3 });
        self.out.extend([0, 0, 0, 0]);
        self.out.extend((b.len() as u32).to_le_bytes());
        self.out.extend(b);
    }
    pub fn end(&mut self) {
        let d = self.dur();
        self.out.extend([d, 6]);
        self.out.extend(11u32.to_le_bytes());
        self.out.extend(b"\x02EndOfDemo\0");
    }
}

fn truncate(w: &mut W) {
    let n = w.out.len();
    let k = match w.r.below(3) {
        0 => w.r.below(n + 1),
        1 => n.saturating_sub(w.r.below(12)),
        _ => n.saturating_sub(w.r.below(60)),
    };
    w.out.truncate(k);
}
pub fn mutate(r: &mut Rng, out: &mut Vec<u8>) {
    for _ in 0..r.range(1, 6) {
        if out.is_empty() {
            return;
        }
        let i = r.below(out.len());
        match r.below(7) {
            0 => out[i] = r.byte(),
            1 => out[i] = *r.pick(&[0u8, 1, 2, 3, 7, 8, 127, 128, 255]),
            2 => {
                out.remove(i);
            }
            3 => {
                let b = r.byte();
                out.insert(i, b)
            }
            4 => {
                for k in 0..4 {
                    if i + k < out.len() {
                        out[i + k] = 0xff;
                    }
                }
            }
            5 => {
                let j = (i + r.below(40)).min(out.len());
                let seg = out[i..j].to_vec();
                let at = r.below(out.len() + 1);
                out.splice(at..at, seg);
            }
            _ => out.truncate(i),
        }
    }
}

/// the texts that are searched for and pieces of them, in any order and without frames around them
fn soup(w: &mut W) {
    let mut v = vec![];
    for _ in 0..w.r.range(1, 14) {
        match w.r.below(10) {
            0..=4 => v.extend_from_slice(w.r.pick::<&[u8]>(MARKERS)),
            5 => {
                let m = *w.r.pick(MARKERS);
                let (a, b) = (w.r.below(m.len() + 1), w.r.below(m.len() + 1));
                v.extend_from_slice(&m[a.min(b)..a.max(b)]);
            }
            6 => {
                let n = w.r.below(6);
                v.extend(vec![0u8; n]);
            }
            7 => {
                let b = w.r.byte();
                let n = *w.r.pick(&[1, 1, 2, 5, 60, 255, 256, 400, 511, 512, 513]);
                v.extend(vec![b; n]);
            }
            8 => v.extend_from_slice(w.r.pick::<&[u8]>(&[b"\\team\\red", b"foo", b"\"", b"\n", b"2024-01-02 03:04:05 CET\n", b"{\"duration\": 7,", b"\\spectator\\1"])),
            _ => {
                let j = w.junk(8);
                v.extend(j);
            }
        }
    }
    if w.r.one_in(3) {
        // no zero before the last third
        let n = v.len() - v.len() / 3;
        v[..n].iter_mut().for_each(|b| *b = (*b).max(1));
    }
    if w.r.one_in(3) {
        let at = w.r.below(w.out.len() + 1);
        w.out.splice(at..at, v);
    } else {
        w.out = v;
    }
}

/// Recordings of many megabytes: everything late, everything early, and one kind of thing very often
pub fn giant(p: &str, seed: u64, k: usize) -> Option<Vec<u8>> {
    let plain = |n: usize, tail: &[u8]| {
        let mut v = vec![7, 1];
        v.extend(((n + tail.len()) as u32).to_le_bytes());
        v.resize(6 + n, 1);
        v.extend_from_slice(tail);
        v
    };
    let mut w = W::new(seed ^ 0x61);
    match (p, k) {
        ("C20", _) | ("C16", 0..=3) => return None,
        (_, 0 | 1) => {
            let mut v = plain(if k == 0 { 17_000_000 } else { 70_000 }, b"");
            v.extend(demo(p, seed ^ 0xB1, false));
            return Some(v);
        }
        (_, 2 | 3) => {
            let mut v = demo(p, seed ^ 0xB2, false);
            v.extend(plain(if k == 2 { 17_000_000 } else { 70_000 }, b"\0"));
            if p == "C18" {
                v.extend([1, 6, 11, 0, 0, 0]);
                v.extend(b"\x02EndOfDemo\0");
            }
            return Some(v);
        }
        ("C14" | "C01", 4) => {
            // more than 2^32 ms
            w.out = [255u8, 7].repeat(16_900_000);
            w.date_frame();
            w.out.extend([255u8, 7].repeat(1000));
            w.marker_frame();
        }
        ("C05" | "C12", 4 | 5) => {
            if p == "C12" {
                w.clients_block(3);
                w.ping_frame();
            }
            let x = w.a_name();
            let t = [&x[..], if k == 4 { b" died\n" } else { b" stomps foo\n" }].concat();
            let b = w.print(1, &t);
            for _ in 0..140_000 {
                w.frame_as(1, 1, b.len() as u32, &b);
            }
        }
        ("C08", 4) => {
            for ph in oracle::FLAG_PHRASES {
                let mut t = b"foo".to_vec();
                t.extend(ph.1.chars().map(|c| c as u8));
                let b = w.print(2, &t);
                let b = [&b[..], &b[..]].concat();
                for _ in 0..33_000 {
                    w.frame_as(1, 1, b.len() as u32, &b);
                }
            }
        }
        ("C09" | "C12", 6) | ("C09", 4 | 5) => {
            // sums of more than 2^24 and 2^32
            let mut b = vec![];
            for i in 0..if k == 5 { 3_000 } else { 70_000 } {
                b.extend([36, 1, 255, 255, 53, 1, 0]);
                if i % 7 == 0 {
                    b.extend([36, 2, 254, 255, 53, 1, 0, 36, 2, 255, 255, 53, 2, 36]);
                }
            }
            w.clients_block(3);
            w.frame(&b);
            w.ping_frame();
        }
        ("C15", 4) => {
            w.out = vec![1, 3, 0, 0, 0, 0, 20, 0, 0, 0, 14, 0, 0, 0, 3, 0, 1, 0];
            w.out.extend(br#"{"version": "#);
            for i in 0..70_001u32 {
                w.out.extend([1, 3, 0, 0, 0, 0, 9, 0, 0, 0, 3, 0, 0, 0, 3, 0]);
                let n = if i == 70_000 { 0 } else { (i % 65_535 + 1) as u16 };
                w.out.extend(n.to_le_bytes());
                w.out.push(b'0' + (i % 10) as u8);
            }
        }
        ("C15", 5) => {
            let t = [&br#"{"version": "#[..], &vec![b'x'; 17_000_000][..]].concat();
            w.out = vec![1, 3, 0, 0, 0, 0];
            w.out.extend((t.len() as u32 + 8).to_le_bytes());
            w.out.extend((t.len() as u32 + 2).to_le_bytes());
            w.out.extend([3, 0, 0, 0]);
            w.out.extend(t);
        }
        ("C04" | "C03", 4) => {
            let mut b = vec![];
            for i in 0..140_000 {
                b.extend([8, (i % 5) as u8, b'a' + (i % 7) as u8, b'0' + (i / 2 % 10) as u8, 0]);
            }
            w.frame(&b);
        }
        ("C04" | "C03", 5) => {
            let mut b = vec![8, 2];
            b.resize(140_000, b'x');
            b.extend([0, 8, 2]);
            b.resize(280_000, b'x');
            b.extend([0, 8, 3, b'y', 0]);
            w.frame(&b);
        }
        ("C02" | "C04", 6) => {
            for i in 0..140_000 {
                let b = [8, 1, b'a' + (i % 3) as u8, 0];
                w.frame_as(if i % 4 == 0 { 3 } else { 1 }, 1, 4, &b);
            }
        }
        _ => return None,
    }
    Some(w.out)
}

/// Which parts a recording for property `p` is made of
pub fn demo(p: &str, seed: u64, big: bool) -> Vec<u8> {
    let mut w = W::new(seed);
    let want = |w: &mut W, n: usize| w.r.one_in(n);
    // prologue
    let (settings, clients): (usize, usize) = match p {
        "C16" => (1, 6),
        "C10" | "C11" => (6, 1),
        "C07" => (8, 1),
        "C12" | "C13" | "C20" => (4, 1),
        "C14" | "C17" | "C19" => (2, 3),
        "C18" => (1, 1),
        "C01" => (2, 2),
        _ => (8, 6),
    };
    for _ in 0..w.r.below(3) {
        w.odd_frame();
    }
    let settings_first = w.r.below(3) != 0;
    if settings_first && want(&mut w, settings) {
        w.settings_frame();
    }
    let n = match p {
        "C10" | "C11" => match w.r.below(8) {
            0 => 0,
            1 => w.r.range(20, 90),
            2 if big => w.r.range(100, 400),
            _ => w.r.range(1, 9),
        },
        "C12" | "C20" if w.r.one_in(12) => w.r.range(30, 300),
        _ => w.r.range(0, 7),
    };
    if want(&mut w, clients) {
        w.clients_block(n);
    }
    if !settings_first && want(&mut w, settings) {
        w.settings_frame();
    }
    if p != "C14" && w.r.one_in(if big { 200 } else { 600 }) {
        // many frames first, so that offsets and counts are large
        let n = *w.r.pick(&[250, 1_000, 10_000, 33_000, 66_000]);
        for _ in 0..n {
            w.out.extend([1, 7]);
        }
    }
    let events = w.r.range(1, if big { 60 } else { 16 });
    let frag_focus = matches!(p, "C05" | "C06" | "C07" | "C12");
    for _ in 0..events {
        let e = match p {
            "C02" => *w.r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 7, 8]),
            "C03" => *w.r.pick(&[1, 1, 3, 4, 6, 0, 9]),
            "C04" => *w.r.pick(&[1, 1, 1, 1, 0, 2, 8, 9]),
            "C05" => *w.r.pick(&[2, 2, 2, 2, 1, 0, 9, 3]),
            "C06" => 2,
            "C07" => *w.r.pick(&[3, 3, 3, 2, 0, 9]),
            "C08" => *w.r.pick(&[5, 5, 5, 5, 1, 0, 9]),
            "C09" => *w.r.pick(&[4, 4, 4, 0, 1, 9]),
            "C12" | "C13" | "C20" => *w.r.pick(&[2, 2, 3, 4, 4, 1, 0]),
            "C14" => *w.r.pick(&[7, 8, 0, 1, 9, 0]),
            "C15" => *w.r.pick(&[6, 9, 0]),
            "C17" => *w.r.pick(&[7, 9, 1]),
            "C18" => *w.r.pick(&[8, 8, 1, 9]),
            "C19" => *w.r.pick(&[2, 4, 6, 7, 8, 0]),
            _ => *w.r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
        };
        match e {
            0 => w.odd_frame(),
            1 => w.print_frame(),
            2 => w.obit_frame(),
            3 => w.team_kill(),
            4 => w.ping_frame(),
            5 => w.flag_frame(),
            6 => {
                if matches!(p, "C15") || w.r.one_in(3) {
                    w.stats_blocks()
                } else {
                    w.odd_frame()
                }
            }
            7 => {
                if w.r.one_in(3) || p == "C17" {
                    w.date_frame()
                } else {
                    w.odd_frame()
                }
            }
            8 => w.marker_frame(),
            _ => {
                let j = w.junk(20);
                w.frame(&j)
            }
        }
        // the same obituary often, so that sums and counters grow
        if frag_focus && w.r.one_in(10) {
            let t = w.obit_text();
            let b = w.print(1, &t);
            let n = match w.r.below(if big { 4_000 } else { 40_000 }) {
                0 => *w.r.pick(&[32_768, 33_000, 65_536, 66_000]),
                1..=40 => w.r.range(120, 300),
                _ => w.r.range(2, 20),
            };
            let mut b = b;
            if n > 1000 {
                let mut t = w.a_name();
                t.extend_from_slice(if w.r.one_in(2) { b" died\n" } else { b" rides foo's rocket\n" });
                b = w.print(1, &t);
            }
            for _ in 0..n {
                w.frame(&b);
            }
        }
        if p == "C08" && w.r.one_in(if big { 40 } else { 400 }) {
            let ph = *w.r.pick(oracle::FLAG_PHRASES);
            let mut t = w.a_name();
            t.extend(ph.1.chars().map(|c| c as u8));
            let b = w.print(2, &t);
            for _ in 0..w.r.range(250, 600) {
                w.frame(&b);
            }
        }
        if p == "C14" && w.r.one_in(200) {
            for _ in 0..70_000 {
                w.out.extend([255, 0]);
            }
        }
        if matches!(p, "C02" | "C11" | "C14" | "C15" | "C17" | "C18" | "C19") && w.r.one_in(if big { 400 } else { 2_000 }) {
            // far apart
            let n = *w.r.pick(&[20_000, 70_000, 140_000, 600_000, 1_100_000]);
            let b = vec![7u8; n];
            w.frame(&b);
        }
        if p == "C02" && w.r.one_in(30) {
            // an extent that does not fit
            let k = *w.r.pick(&[1u8, 3, 4, 5, 6]);
            let over = *w.r.pick(&[u32::MAX, u32::MAX - 9, 0x8000_0000, 100_000, 300]);
            let b = w.print(1, b"late died\n");
            w.frame_as(k, 9, over, &b);
        }
        if p == "C02" && w.r.one_in(10) {
            // a payload over 255 / 65535 bytes
            let n = *w.r.pick(&[255, 256, 257, 1000, 65_535, 65_536, 70_000]);
            let mut b = w.print(1, b"foo died\n");
            b.resize(n, 7);
            w.frame(&b);
        }
    }
    let stats = match p {
        "C12" | "C13" => 3,
        "C15" => 1,
        "C19" => 2,
        "C01" | "C03" => 3,
        "C20" => 3,
        _ => 1000,
    };
    if want(&mut w, stats) {
        w.stats_blocks();
        if w.r.one_in(8) {
            w.stats_blocks();
        }
    }
    if w.r.one_in(if p == "C14" { 2 } else { 5 }) {
        w.marker_frame();
        if w.r.one_in(2) {
            w.print_frame();
        }
    }
    if p == "C18" {
        // around the smallest valid size
        if w.r.one_in(2) {
            let want = w.r.range(1021, 1027);
            while w.out.len() + 19 < want {
                let n = (want - w.out.len() - 19).min(6);
                if n >= 6 {
                    let k = (want - w.out.len() - 19 - 6).min(200);
                    let b = vec![1u8; k];
                    w.frame_as(1, 1, k as u32, &b);
                } else {
                    w.out.push(0);
                }
            }
        }
        if !w.r.one_in(4) {
            w.end();
        }
        match w.r.below(12) {
            0 => w.out.push(0),
            1 => {
                w.out.pop();
            }
            _ => {}
        }
        if w.r.one_in(40) {
            w.out = b"\0\x02EndOfDemo\0".to_vec();
        }
        if w.r.one_in(60) {
            w.out = b"\x02EndOfDemo\0".to_vec();
        }
    } else if w.r.one_in(2) {
        w.end();
    }
    let cut = match p {
        "C01" => 2,
        "C02" | "C03" | "C15" => 3,
        "C18" => 40,
        _ => 8,
    };
    if w.r.one_in(cut) {
        truncate(&mut w);
    }
    let hug = match p {
        "C10" | "C11" | "C14" | "C15" | "C16" | "C17" | "C18" => 6,
        _ => 40,
    };
    if w.r.one_in(hug) {
        // a text that is searched for comes (almost) first, or ends the data
        let mut r = w.r.clone();
        let n = *r.pick(MARKERS);
        let at: Vec<usize> = w.out.windows(n.len()).enumerate().filter(|(_, x)| *x == n).map(|(i, _)| i).collect();
        if !at.is_empty() {
            let i = *r.pick(&at);
            if r.one_in(2) {
                w.out.drain(..i - i.min(r.below(3)));
            } else {
                let e = (i + n.len() + r.below(3)).min(w.out.len());
                w.out.truncate(e - r.below(2));
            }
        } else if r.one_in(3) {
            w.out.splice(0..0, n.iter().copied());
        }
        w.r.next();
    }
    let mu = match p {
        "C01" => 2,
        "C02" | "C03" | "C15" => 6,
        _ => 15,
    };
    if w.r.one_in(mu) {
        let mut r = w.r.clone();
        mutate(&mut r, &mut w.out);
    }
    let so = match p {
        "C01" | "C10" | "C15" | "C16" => 12,
        "C14" | "C17" | "C18" | "C19" => 30,
        _ => 200,
    };
    if w.r.one_in(so) {
        soup(&mut w);
    }
    if p == "C01" && w.r.one_in(12) {
        let n = w.r.below(64);
        w.out = (0..n).map(|_| w.r.byte()).collect();
    }
    w.out
}

/// data of the same length that differs in a few bytes
pub fn twin(seed: u64, d: &[u8]) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut t = d.to_vec();
    let pos: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_alphanumeric()).collect();
    for _ in 0..r.range(1, 12) {
        if !pos.is_empty() && !r.one_in(4) {
            let i = *r.pick(&pos);
            t[i] = match t[i] {
                b'0'..=b'9' => b'0' + r.below(10) as u8,
                b'a'..=b'z' => b'a' + r.below(26) as u8,
                _ => b'A' + r.below(26) as u8,
            };
        } else if !t.is_empty() {
            let i = r.below(t.len());
            t[i] = t[i].wrapping_add(1);
        }
    }
    t
}
