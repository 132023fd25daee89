// What the program is supposed to compute, over mathematical values: written from the property
// statements, independent of the code's loops.  Every definition here is a spec or a proved lemma.
use vstd::prelude::*;
use crate::shim::*;
use crate::qw::prot::{PrintId, MessageType, HiddenMessage};
verus! {
broadcast use group_shim;

pub open spec fn max_data() -> int { 0x7fff_ffff }

// ------------------------------------------------------------------ wire values
pub open spec fn pid_of(b: u8) -> int { if b <= 3 { b as int } else { 4 } }
pub open spec fn pid_int(p: PrintId) -> int {
    match p { PrintId::Low => 0, PrintId::Medium => 1, PrintId::High => 2, PrintId::Chat => 3, PrintId::Unknown => 4 }
}
/// the type bytes that matter: 8 print, 14 frag update, 36 ping update
pub open spec fn mt_ok(m: MessageType, b: u8) -> bool {
    (m == MessageType::Print <==> b == 8) && (m == MessageType::UpdateFrags <==> b == 14) && (m == MessageType::UpdatePing <==> b == 36)
}
pub struct PrintS { pub id: int, pub content: Seq<u8> }
pub open spec fn pv(p: crate::qw::message::print::Print) -> PrintS { PrintS { id: pid_int(p.id), content: p.content@ } }
pub open spec fn pvs(s: Seq<crate::qw::message::print::Print>) -> Seq<PrintS> { s.map_values(|p: crate::qw::message::print::Print| pv(p)) }

/// first zero byte at or after p
pub open spec fn zero_at(d: Seq<u8>, p: int) -> Option<int>
    decreases d.len() - p
{
    if p < 0 || p >= d.len() { None } else if d[p] == 0 { Some(p) } else { zero_at(d, p + 1) }
}
pub broadcast proof fn lemma_zero_at(d: Seq<u8>, p: int)
    requires 0 <= p
    ensures match #[trigger] zero_at(d, p) {
        Some(z) => p <= z < d.len() && d[z] == 0 && (forall|i: int| p <= i < z ==> #[trigger] d[i] != 0),
        None => forall|i: int| p <= i < d.len() ==> #[trigger] d[i] != 0,
    }
    decreases d.len() - p
{
    if p < d.len() && d[p] != 0 { lemma_zero_at(d, p + 1); }
}
/// a print record starting at its severity byte: the print and the position after it
pub open spec fn print_at(d: Seq<u8>, p: int) -> Option<(PrintS, int)> {
    if 0 <= p < d.len() {
        match zero_at(d, p + 1) {
            Some(z) => Some((PrintS { id: pid_of(d[p]), content: d.subrange(p + 1, z) }, z + 1)),
            None => None,
        }
    } else { None }
}

// ------------------------------------------------------------------ frames
pub struct FrameS { pub dur: int, pub kind: u8, pub hdr: int, pub body: int }
/// the complete frame starting at i, if there is one
pub open spec fn frame_at(d: Seq<u8>, i: int) -> Option<FrameS> {
    if i < 0 || i + 2 > d.len() { None } else {
        let kind = d[i + 1] & 7u8;
        let pre = if kind == 3 { 6int } else { 2int };
        if kind == 1 || (3 <= kind && kind <= 6) {
            if i + pre + 4 > d.len() { None } else {
                let body = le4(d.subrange(i + pre, i + pre + 4));
                if i + pre + 4 + body > d.len() { None } else { Some(FrameS { dur: d[i] as int, kind, hdr: pre + 4, body }) }
            }
        } else {
            let body = if kind == 2 { 8int } else { 0int };
            if i + pre + body > d.len() { None } else { Some(FrameS { dur: d[i] as int, kind, hdr: pre, body }) }
        }
    }
}
pub open spec fn body_at(d: Seq<u8>, i: int, f: FrameS) -> Seq<u8> { d.subrange(i + f.hdr, i + f.hdr + f.body) }
pub open spec fn next_at(i: int, f: FrameS) -> int { i + f.hdr + f.body }
pub broadcast proof fn lemma_frame(d: Seq<u8>, i: int)
    ensures match #[trigger] frame_at(d, i) {
        Some(f) => 0 <= i && f.hdr >= 2 && f.body >= 0 && 0 <= f.dur <= 255 && next_at(i, f) <= d.len() && i + 2 <= next_at(i, f)
            && body_at(d, i, f).len() == f.body && (f.body > 0 ==> i + 3 <= next_at(i, f)),
        None => true,
    }
{}

// ------------------------------------------------------------------ durations
/// sum of the times of the frames from i on that start before `until`
pub open spec fn dur_sum(d: Seq<u8>, i: int, until: int) -> int
    decreases d.len() - i
{
    match frame_at(d, i) {
        Some(f) => if i >= until || f.hdr < 1 || f.body < 0 { 0 } else { f.dur + dur_sum(d, next_at(i, f), until) },
        None => 0,
    }
}

// ------------------------------------------------------------------ prints
/// the run of prints at p
pub open spec fn leading_prints(b: Seq<u8>, p: int) -> Seq<PrintS>
    decreases b.len() - p
{
    if 0 <= p < b.len() && b[p] == 8 {
        match print_at(b, p + 1) {
            Some((pr, q)) => if q <= p || q > b.len() { Seq::empty() } else {
                (if pr.content.len() > 0 { seq![pr] } else { Seq::empty() }) + leading_prints(b, q)
            },
            None => Seq::empty(),
        }
    } else { Seq::empty() }
}
pub open spec fn all_prints(d: Seq<u8>, i: int) -> Seq<PrintS>
    decreases d.len() - i
{
    match frame_at(d, i) {
        Some(f) => if f.hdr < 1 || f.body < 0 { Seq::empty() } else {
            leading_prints(body_at(d, i, f), 0) + all_prints(d, next_at(i, f))
        },
        None => Seq::empty(),
    }
}
pub broadcast proof fn lemma_dedup_pvs(s: Seq<crate::qw::message::print::Print>)
    ensures #[trigger] pvs(dedup(s)) =~= dedup(pvs(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dedup_pvs(s.drop_last());
        assert(pvs(s).drop_last() =~= pvs(s.drop_last()));
        assert(pvs(s).last() == pv(s.last()));
        if s.len() >= 2 {
            let a = s[s.len() - 2];
            let b = s.last();
            assert(pvs(s)[s.len() - 2] == pv(a));
            assert(pv(a) == pv(b) ==> a == b);
        }
    }
}
}
verus! {
// ------------------------------------------------------------------ searching for fixed texts
pub open spec fn has(d: Seq<u8>, n: Seq<u8>) -> bool { find_sub(d, n) is Some }
pub open spec fn ends(d: Seq<u8>, n: Seq<u8>) -> bool { occurs(d, n, d.len() - n.len()) }
pub broadcast proof fn lemma_rfind_iff(h: Seq<u8>, n: Seq<u8>)
    ensures (#[trigger] rfind_sub(h, n)) is Some <==> find_sub(h, n) is Some
{
    lemma_find(h, n);
    lemma_rfind(h, n);
}
pub broadcast proof fn lemma_find_ext<T>(h: Seq<T>, n: Seq<T>, m: Seq<T>)
    ensures n =~= m ==> #[trigger] find_sub(h, n) == #[trigger] find_sub(h, m)
{}
pub broadcast proof fn lemma_rfind_ext<T>(h: Seq<T>, n: Seq<T>, m: Seq<T>)
    ensures n =~= m ==> #[trigger] rfind_sub(h, n) == #[trigger] rfind_sub(h, m)
{}
pub broadcast proof fn lemma_occurs_ext<T>(h: Seq<T>, n: Seq<T>, m: Seq<T>, i: int, j: int)
    ensures n =~= m && i == j ==> #[trigger] occurs(h, n, i) == #[trigger] occurs(h, m, j)
{}
pub open spec fn n_abort() -> Seq<u8> { seq![8u8, 2u8, 205u8, 225u8, 244u8, 227u8, 232u8, 32u8, 243u8, 244u8, 239u8, 240u8, 240u8, 229u8, 228u8, 32u8, 226u8, 249u8, 32u8, 237u8, 225u8, 234u8, 239u8, 242u8, 233u8, 244u8, 249u8, 32u8, 246u8, 239u8, 244u8, 229u8, 10u8, 0u8] }
pub open spec fn n_end() -> Seq<u8> { seq![0u8, 2u8, 69u8, 110u8, 100u8, 79u8, 102u8, 68u8, 101u8, 109u8, 111u8, 0u8] }
pub open spec fn n_paused1() -> Seq<u8> { seq![83u8, 101u8, 114u8, 118u8, 101u8, 114u8, 32u8, 105u8, 115u8, 32u8, 112u8, 97u8, 117u8, 115u8, 101u8, 100u8] }
pub open spec fn n_paused2() -> Seq<u8> { seq![112u8, 97u8, 117u8, 115u8, 101u8, 100u8, 32u8, 116u8, 104u8, 101u8, 32u8, 103u8, 97u8, 109u8, 101u8] }
pub open spec fn n_settings() -> Seq<u8> { seq![102u8, 117u8, 108u8, 108u8, 115u8, 101u8, 114u8, 118u8, 101u8, 114u8, 105u8, 110u8, 102u8, 111u8, 32u8, 34u8] }
pub open spec fn n_spawn() -> Seq<u8> { seq![9u8, 99u8, 109u8, 100u8, 32u8, 115u8, 112u8, 97u8, 119u8, 110u8] }
pub open spec fn n_name() -> Seq<u8> { seq![92u8, 110u8, 97u8, 109u8, 101u8, 92u8] }
pub open spec fn n_bot() -> Seq<u8> { seq![34u8, 98u8, 111u8, 116u8, 34u8, 58u8, 32u8, 123u8] }
pub open spec fn n_version() -> Seq<u8> { seq![123u8, 34u8, 118u8, 101u8, 114u8, 115u8, 105u8, 111u8, 110u8, 34u8, 58u8, 32u8] }
pub open spec fn n_matchdate() -> Seq<u8> { seq![8u8, 2u8, 109u8, 97u8, 116u8, 99u8, 104u8, 100u8, 97u8, 116u8, 101u8, 58u8, 32u8] }
pub open spec fn n_over() -> Seq<u8> { seq![84u8, 104u8, 101u8, 32u8, 109u8, 97u8, 116u8, 99u8, 104u8, 32u8, 105u8, 115u8, 32u8, 111u8, 118u8, 101u8, 114u8] }
pub open spec fn n_standby() -> Seq<u8> { seq![52u8, 115u8, 116u8, 97u8, 116u8, 117u8, 115u8, 0u8, 83u8, 116u8, 97u8, 110u8, 100u8, 98u8, 121u8, 0u8] }
pub open spec fn n_duration() -> Seq<u8> { seq![34u8, 100u8, 117u8, 114u8, 97u8, 116u8, 105u8, 111u8, 110u8, 34u8, 58u8, 32u8] }

/// the first b after the first a, when something lies between them: (start, end)
pub open spec fn between(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Option<(int, int)> {
    match find_sub(d, a) {
        None => None,
        Some(p) => { let f = p + a.len(); match find_sub(d.subrange(f, d.len() as int), b) {
            None => None,
            Some(q) => if q > 0 { Some((f, f + q)) } else { None },
        } },
    }
}
pub broadcast proof fn lemma_between_ext(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>, a2: Seq<u8>, b2: Seq<u8>)
    ensures a =~= a2 && b =~= b2 ==> #[trigger] between(d, a, b) == #[trigger] between(d, a2, b2)
{}
pub broadcast proof fn lemma_between(d: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures match #[trigger] between(d, a, b) {
        None => true,
        Some((f, t)) => a.len() <= f < t && t + b.len() <= d.len() && occurs(d, a, f - a.len()) && occurs(d, b, t),
    }
{
    lemma_find(d, a);
    if let Some(p) = find_sub(d, a) {
        let f = p + a.len();
        let e = d.subrange(f, d.len() as int);
        lemma_find(e, b);
        if let Some(q) = find_sub(e, b) {
            assert(e.subrange(q, q + b.len()) =~= d.subrange(f + q, f + q + b.len()));
            assert(f - a.len() == p);
        }
    }
}

// ------------------------------------------------------------------ settings
pub open spec fn min(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn si_text(d: Seq<u8>) -> Option<Seq<char>> {
    match between(d.subrange(0, min(d.len() as int, 1280)), n_settings(), seq![34u8]) {
        Some((f, t)) => Some(qtext(d.subrange(f, t))),
        None => None,
    }
}
pub open spec fn si(d: Seq<u8>) -> Option<SiS> {
    match si_text(d) { Some(t) => Some(si_of(t)), None => None }
}
pub open spec fn is_hoony(d: Seq<u8>) -> bool {
    match si(d) { Some(s) => s.mode == Some("hoonymode"@), None => false }
}

// ------------------------------------------------------------------ clients
pub open spec fn ci_rest(d: Seq<u8>, off: int, max: int) -> Seq<Seq<char>>
    decreases d.len() - off
{
    if off < 0 || off > d.len() { Seq::empty() } else {
        match find_sub(d.subrange(off, min(d.len() as int, off + 512)), n_name()) {
            None => Seq::empty(),
            Some(o) => match rfind_sub(d.subrange(0, off + o), seq![0u8]) {
                None => Seq::empty(),
                Some(z) => match find_sub(d.subrange(z + 1, d.len() as int), seq![0u8]) {
                    None => Seq::empty(),
                    Some(t) => {
                        let to = z + 1 + t;
                        if to <= off || to > d.len() || !(7 <= t <= 256) { Seq::empty() }
                        else if to >= max { seq![uni(d.subrange(z + 1, to))] }
                        else { seq![uni(d.subrange(z + 1, to))] + ci_rest(d, to, max) }
                    },
                },
            },
        }
    }
}
/// the client strings of a recording; none at all when there is no spawn marker
pub open spec fn ci_strs(d: Seq<u8>) -> Option<Seq<Seq<char>>> {
    match find_sub(d, n_spawn()) { Some(o) => Some(ci_rest(d, o, o + 24 * 512)), None => None }
}
/// between two consecutive zero bytes around a name key there is no zero: the string's end lies behind the key
pub proof fn lemma_ci_step(d: Seq<u8>, off: int, o: int, z: int, t: int)
    requires 0 <= off <= d.len(),
        find_sub(d.subrange(off, min(d.len() as int, off + 512)), n_name()) == Some(o),
        rfind_sub(d.subrange(0, off + o), seq![0u8]) == Some(z),
        find_sub(d.subrange(z + 1, d.len() as int), seq![0u8]) == Some(t),
    ensures off + o + 6 <= z + 1 + t < d.len(), 0 <= z < off + o,
{
    let w = d.subrange(off, min(d.len() as int, off + 512));
    let k = off + o;
    lemma_find(w, n_name());
    assert(n_name().len() == 6);
    assert forall|i: int| 0 <= i < 6 implies #[trigger] d[k + i] == n_name()[i] by { assert(w.subrange(o, o + 6)[i] == n_name()[i]); }
    let h = d.subrange(0, k);
    lemma_rfind(h, seq![0u8]);
    let e = d.subrange(z + 1, d.len() as int);
    lemma_find(e, seq![0u8]);
    assert(e.subrange(t, t + 1)[0] == 0u8);
    let to = z + 1 + t;
    assert(d[to] == 0);
    if to < k { assert(h.subrange(to, to + 1) =~= seq![0u8]); assert(occurs(h, seq![0u8], to)); assert(false); }
    if to < k + 6 { assert(d[k + (to - k)] == n_name()[to - k]); assert(false); }
}
pub struct ClientS {
    pub number: u8, pub name: Seq<char>, pub team: Seq<char>, pub c0: u8, pub c1: u8,
    pub spec: bool, pub bot: bool, pub auth: Option<Seq<char>>, pub cc: Option<Seq<char>>,
}
pub open spec fn or_none(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => Seq::empty() } }
pub open spec fn or_empty(o: Option<String>) -> Seq<char> { match o { Some(s) => s@, None => Seq::empty() } }
pub open spec fn or_zero(o: Option<i32>) -> i32 { match o { Some(v) => v, None => 0 } }
pub open spec fn cv(c: crate::client::Client) -> ClientS {
    ClientS { number: c.number, name: c.name@, team: c.team@, c0: c.color@[0], c1: c.color@[1], spec: c.is_spectator,
        bot: c.is_bot, auth: osv(c.auth_username), cc: osv(c.auth_cc) }
}
pub open spec fn cvs(s: Seq<crate::client::Client>) -> Seq<ClientS> { s.map_values(|c: crate::client::Client| cv(c)) }
pub open spec fn client_of(i: CiS, n: u8) -> ClientS {
    ClientS { number: n, name: or_none(i.name), team: or_none(i.team), c0: or_zero(i.topcolor) as u8, c1: or_zero(i.bottomcolor) as u8,
        spec: or_zero(i.spectator) != 0, bot: or_zero(i.bot) != 0, auth: i.auth, cc: i.flag }
}
pub open spec fn clients_s(d: Seq<u8>) -> Option<Seq<ClientS>> {
    match ci_strs(d) { Some(v) => Some(Seq::new(v.len(), |i: int| client_of(ci_of(v[i]), i as u8))), None => None }
}
pub open spec fn keep_spec(s: Seq<ClientS>, want: bool) -> Seq<ClientS>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.last().spec == want { keep_spec(s.drop_last(), want).push(s.last()) }
    else { keep_spec(s.drop_last(), want) }
}
pub broadcast proof fn lemma_keep_spec_push(s: Seq<ClientS>, x: ClientS, want: bool)
    ensures #[trigger] keep_spec(s.push(x), want) == (if x.spec == want { keep_spec(s, want).push(x) } else { keep_spec(s, want) })
{ assert(s.push(x).drop_last() =~= s); }
pub open spec fn names_of(s: Seq<ClientS>) -> Seq<Seq<char>> { s.map_values(|c: ClientS| c.name) }
/// the distinct teams in order of first appearance
pub open spec fn teams_of(s: Seq<ClientS>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { let r = teams_of(s.drop_last()); if r.contains(s.last().team) { r } else { r.push(s.last().team) } }
}
pub broadcast proof fn lemma_teams_of_push(s: Seq<ClientS>, x: ClientS)
    ensures #[trigger] teams_of(s.push(x)) == (if teams_of(s).contains(x.team) { teams_of(s) } else { teams_of(s).push(x.team) })
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_strs_contains(s: Seq<String>, x: Seq<char>)
    ensures #[trigger] strs(s).contains(x) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x
{
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x;
        assert(strs(s)[i] == x);
    }
}
pub open spec fn has_bot(s: Seq<ClientS>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).bot }
pub open spec fn has_human(s: Seq<ClientS>) -> bool { exists|i: int| 0 <= i < s.len() && !(#[trigger] s[i]).bot }
/// the sorted form of a name list is ordered and has the same names, each as often
proof fn lemma_uni_sort(s: Seq<Seq<char>>)
    ensures uni_sort(s).to_multiset() == s.to_multiset(), uni_sort(s).len() == s.len(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] cmp_plain(uni_sort(s)[i], uni_sort(s)[j]) <= 0,
{
    let c = |a: Seq<char>, b: Seq<char>| cmp_plain(a, b);
    assert(total_preorder(c)) by {
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_chars_anti(lower(plain(a)), lower(plain(b))); }
        assert forall|a: Seq<char>, b: Seq<char>| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_chars_anti(lower(plain(a)), lower(plain(b))); }
        assert forall|a: Seq<char>, b: Seq<char>, d: Seq<char>| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by {
            lemma_cmp_chars_trans(lower(plain(a)), lower(plain(b)), lower(plain(d)));
        }
    }
    lemma_isort(s, c);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] cmp_plain(uni_sort(s)[i], uni_sort(s)[j]) <= 0 by { assert(c(uni_sort(s)[i], uni_sort(s)[j]) <= 0); }
}
pub open spec fn player_clients_s(d: Seq<u8>) -> Option<Seq<ClientS>> {
    match clients_s(d) { Some(v) => Some(keep_spec(v, false)), None => None }
}
pub open spec fn spectators_s(d: Seq<u8>) -> Option<Seq<ClientS>> {
    match clients_s(d) { Some(v) => Some(keep_spec(v, true)), None => None }
}

// ------------------------------------------------------------------ statistics blocks
pub struct BlockS { pub body: int, pub kind: int, pub number: int }
pub open spec fn block_at(b: Seq<u8>) -> Option<BlockS> {
    if b.len() < 8 || le4(b.subrange(0, 4)) < 2 { None } else {
        Some(BlockS { body: le4(b.subrange(0, 4)) - 2, kind: le2(b.subrange(4, 6)), number: le2(b.subrange(6, 8)) })
    }
}
/// the payloads of the blocks whose frame starts at o
pub open spec fn ktx_rest(d: Seq<u8>, o: int) -> Seq<u8>
    decreases d.len() - o
{
    if o < 0 || o + 10 > d.len() { Seq::empty() } else {
        match block_at(d.subrange(o + 10, d.len() as int)) {
            None => Seq::empty(),
            Some(b) => {
                let s = o + 18;
                if b.kind != 3 || b.body < 0 || s + b.body > d.len() { Seq::empty() }
                else if b.number == 0 { d.subrange(s, s + b.body) }
                else { d.subrange(s, s + b.body) + ktx_rest(d, s + b.body) }
            },
        }
    }
}
pub open spec fn ktx_text(d: Seq<u8>) -> Option<Seq<char>> {
    match rfind_sub(d, n_version()) {
        Some(p) => if p < 18 { None } else { dec(ktx_rest(d, p - 18)) },
        None => None,
    }
}
pub proof fn lemma_ktx_rest_len(d: Seq<u8>, o: int)
    ensures 0 <= o <= d.len() ==> ktx_rest(d, o).len() <= d.len() - o, !(0 <= o <= d.len()) ==> ktx_rest(d, o).len() == 0
    decreases d.len() - o
{
    if 0 <= o && o + 10 <= d.len() {
        match block_at(d.subrange(o + 10, d.len() as int)) {
            None => {},
            Some(b) => { if b.body >= 0 && o + 18 + b.body <= d.len() { lemma_ktx_rest_len(d, o + 18 + b.body); } },
        }
    }
}
pub broadcast proof fn lemma_ktx_text_len(d: Seq<u8>)
    ensures (#[trigger] ktx_text(d)) is Some ==> ktx_text(d)->Some_0.len() <= d.len()
{
    if let Some(p) = rfind_sub(d, n_version()) { lemma_ktx_rest_len(d, p - 18); lemma_dec_len(ktx_rest(d, p - 18)); }
}
pub open spec fn ktx(d: Seq<u8>) -> Option<KtxstatsV3> {
    match ktx_text(d) { Some(t) => kx_of(t), None => None }
}

// ------------------------------------------------------------------ durations, dates, preferred sources
pub open spec fn countdown_ms(d: Seq<u8>) -> Option<int> {
    if is_hoony(d) { Some(0) } else { match find_sub(d, n_matchdate()) { Some(p) => Some(dur_sum(d, 0, p)), None => None } }
}
pub open spec fn demo_ms(d: Seq<u8>) -> int {
    match rfind_sub(d, n_over()) { Some(p) => dur_sum(d, 0, p), None => match rfind_sub(d, n_standby()) {
        Some(p) => dur_sum(d, 0, p), None => dur_sum(d, 0, d.len() as int) } }
}
pub open spec fn seek_ms(d: Seq<u8>) -> int {
    let b = match countdown_ms(d) { Some(b) => b, None => 0 };
    if demo_ms(d) >= b { demo_ms(d) - b } else { 0 }
}
/// the duration text of the embedded statistics
pub open spec fn ktx_dur_text(d: Seq<u8>) -> Option<Seq<char>> {
    match ktx_text(d) { None => None, Some(t) => match between(enc(t), n_duration(), seq![44u8]) {
        None => None, Some((f, e)) => Some(t.subrange(cidx(t, f), cidx(t, e))) } }
}
pub open spec fn ktx_nanos(d: Seq<u8>) -> Option<int> {
    match ktx_dur_text(d) { None => None, Some(t) => match parse_f64(t) { None => None, Some(x) => match secs_f64(x) {
        None => None, Some(u) => Some(u.nanos as int) } } }
}
pub open spec fn nanos_ok(r: Result<Duration, AError>, want: Option<int>) -> bool {
    match want { Some(n) => r is Ok && r->Ok_0.nanos as int == n, None => r is Err }
}
pub proof fn lemma_ktx_len(d: Seq<u8>, o: int)
    ensures ktx_rest(d, o).len() <= d.len()
    decreases d.len() - o
{
    lemma_ktx_len2(d, o);
}
proof fn lemma_ktx_len2(d: Seq<u8>, o: int)
    ensures 0 <= o <= d.len() ==> ktx_rest(d, o).len() <= d.len() - o, ktx_rest(d, o).len() <= d.len()
    decreases d.len() - o
{
    if o < 0 || o + 10 > d.len() {} else {
        match block_at(d.subrange(o + 10, d.len() as int)) {
            None => {},
            Some(b) => {
                let s = o + 18;
                if b.kind != 3 || b.body < 0 || s + b.body > d.len() {} else if b.number == 0 {} else { lemma_ktx_len2(d, s + b.body); }
            },
        }
    }
}
pub open spec fn pair_ok(t: Seq<char>, f: int, e: int) -> bool { is_boundary(t, f) && is_boundary(t, e) && f <= e }
pub proof fn lemma_dur_text(d: Seq<u8>)
    ensures match ktx_text(d) { None => true, Some(t) => enc(t).len() <= d.len()
        && match between(enc(t), n_duration(), seq![44u8]) { Some((f, e)) => pair_ok(t, f, e), None => true } }
{
    if let Some(t) = ktx_text(d) {
        let p = rfind_sub(d, n_version())->Some_0;
        lemma_ktx_len(d, p - 18);
        lemma_dec(ktx_rest(d, p - 18));
        let b = enc(t);
        lemma_between(b, n_duration(), seq![44u8]);
        if let Some((f, e)) = between(b, n_duration(), seq![44u8]) {
            let w = b.subrange(f - 12, f);
            assert(w =~= n_duration());
            assert(b[f - 1] == w[11]);
            assert(n_duration()[11] == 32u8);
            lemma_ascii_boundary(t, f - 1);
            assert(b.subrange(e, e + 1)[0] == 44u8);
            lemma_ascii_boundary(t, e);
        }
    }
}
pub open spec fn date_text(d: Seq<u8>) -> Option<Seq<char>> {
    match find_sub(d, n_matchdate()) { None => None, Some(p) => {
        let f = p + 13;
        match find_sub(d.subrange(f, d.len() as int), seq![10u8]) { None => None, Some(n) =>
            if 22 <= n <= 25 { dec(d.subrange(f, f + n)) } else { None } } } }
}
pub open spec fn tz_by_name(z: Seq<char>, i: int) -> Option<Seq<char>>
    decreases tz_table()@.len() - i
{
    if i < 0 || i >= tz_table()@.len() { None } else if tz_table()@[i].0@ == z { Some(tz_table()@[i].1@) } else { tz_by_name(z, i + 1) }
}
pub open spec fn tz_digits(z: Seq<char>) -> Seq<char> { pad_right(repl_char(z.subrange(1, z.len() as int), ':', Seq::empty()), '0', 4) }
pub open spec fn tz_by_number(z: Seq<char>) -> Option<Seq<char>> {
    if z.len() > 0 && (z[0] == '+' || z[0] == '-') {
        let t = tz_digits(z);
        if enc(t).len() == 4 { match parse_int(t, i32::MIN as int, i32::MAX as int) {
            Some(v) => if 0 <= v <= 1200 { Some(seq![z[0]] + t.subrange(0, 2) + seq![':'] + t.subrange(2, 4)) } else { None },
            None => None } } else { None }
    } else { None }
}
pub broadcast proof fn lemma_cat_empty<T>(a: Seq<T>, b: Seq<T>)
    ensures a.len() == 0 ==> #[trigger] (a + b) == b, b.len() == 0 ==> a + b == a
{ if a.len() == 0 { assert(a + b =~= b); } if b.len() == 0 { assert(a + b =~= a); } }
pub proof fn lemma_boff1(s: Seq<char>)
    ensures s.len() > 0 && (s[0] as int) < 0x80 ==> boff(s, 1) == 1 && is_boundary(s, 1) && cidx(s, 1) == 1
{ reveal_with_fuel(boff, 2); if s.len() > 0 { lemma_cidx(s, 1); } }
/// a number of four bytes is four characters
pub proof fn lemma_ascii_number(t: Seq<char>)
    ensures parse_int(t, i32::MIN as int, i32::MAX as int) is Some ==> enc(t).len() == t.len() && forall|i: int| 0 <= i <= t.len() ==> (#[trigger] is_boundary(t, i)) && cidx(t, i) == i,
        parse_int(t, i32::MIN as int, i32::MAX as int) is Some ==> forall|i: int| 0 <= i <= t.len() ==> #[trigger] cidx(t, i) == i,
        enc(t).len() == boff(t, t.len() as int)
{
    lemma_enc_len(t);
    if parse_int(t, i32::MIN as int, i32::MAX as int) is Some {
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as int) < 0x80 by {
            if i > 0 && (t[0] == '-' || t[0] == '+') { assert(t.drop_first()[i - 1] == t[i]); assert(digit(t.drop_first()[i - 1])); }
            else if t[0] == '-' || t[0] == '+' {} else { assert(digit(t[i])); }
        }
        assert forall|i: int| 0 <= i <= t.len() implies #[trigger] is_boundary(t, i) && cidx(t, i) == i by { lemma_ascii_boff(t, i); lemma_cidx(t, i); }
        lemma_ascii_boff(t, t.len() as int);
        assert forall|i: int| 0 <= i <= t.len() implies #[trigger] cidx(t, i) == i by { assert(is_boundary(t, i)); }
    }
}
proof fn lemma_ascii_boff(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(), forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k] as int) < 0x80
    ensures boff(t, i) == i
    decreases i
{ if i > 0 { lemma_ascii_boff(t, i - 1); } }
pub open spec fn tz_of(z: Seq<char>) -> Option<Seq<char>> {
    match tz_by_name(z, 0) { Some(o) => Some(o), None => tz_by_number(z) }
}
/// bytes 0..19 of the text and the offset that its zone text (from byte 20 on) stands for
pub open spec fn date_fixed(t: Seq<char>) -> Option<Seq<char>> {
    if is_boundary(t, 19) && is_boundary(t, 20) {
        match tz_of(t.subrange(cidx(t, 20), t.len() as int)) { Some(o) => Some(t.subrange(0, cidx(t, 19)) + o), None => None }
    } else { None }
}
pub open spec fn date_of(d: Seq<u8>) -> Option<DateTime<Utc>> {
    match date_text(d) { None => None, Some(t) => match date_fixed(t) { None => None, Some(x) =>
        match dt_parse(x, "%Y-%m-%d %H:%M:%S%z"@) { Some(f) => Some(dt_utc(f)), None => None } } }
}
pub open spec fn epoch_of(d: Seq<u8>) -> Option<DateTime<Utc>> {
    match si(d) { None => None, Some(s) => match s.epoch { None => None, Some(e) => match ts_opt(e as int, 0) {
        LocalResult::Single(t) => Some(t), LocalResult::Ambiguous(t, _) => Some(t), LocalResult::None => None } } }
}
pub open spec fn tz_table() -> [(&'static str, &'static str); 193] { [
    ("ACDT", "+10:30"), ("ACST", "+09:30"), ("ACT", "+09:30"), ("ACWST", "+08:45"), ("ADT", "-03:00"), ("AEDT", "+11:00"),
    ("AEST", "+10:00"), ("AFT", "+04:30"), ("AKDT", "-08:00"), ("AKST", "-09:00"), ("ALMT", "+06:00"), ("AMST", "-03:00"),
    ("AMT", "+04:00"), ("ANAT", "+12:00"), ("AQTT", "+05:00"), ("ART", "-03:00"), ("AST", "+03:00"), ("AST", "-04:00"),
    ("AWST", "+08:00"), ("AZOST", "+00:00"), ("AZOT", "-01:00"), ("AZT", "+04:00"), ("BIOT", "+06:00"), ("BIT", "-12:00"),
    ("BNT", "+08:00"), ("BOT", "-04:00"), ("BRST", "-02:00"), ("BRT", "-03:00"), ("BST", "+01:00"), ("BTT", "+06:00"),
    ("CAT", "+02:00"), ("CCT", "+06:30"), ("CDT", "-05:00"), ("CEST", "+02:00"), ("CET", "+01:00"), ("CHADT", "+13:45"),
    ("CHAST", "+12:45"), ("CHOST", "+09:00"), ("CHOT", "+08:00"), ("CHST", "+10:00"), ("CHUT", "+10:00"), ("CIST", "-08:00"),
    ("CKT", "-10:00"), ("CLST", "-03:00"), ("CLT", "-04:00"), ("COST", "-04:00"), ("COT", "-05:00"), ("CST", "-06:00"),
    ("CVT", "-01:00"), ("CWST", "+08:45"), ("CXT", "+07:00"), ("DAVT", "+07:00"), ("DDUT", "+10:00"), ("DFT", "+01:00"),
    ("EASST", "-05:00"), ("EAST", "-06:00"), ("EAT", "+03:00"), ("ECT", "-05:00"), ("EDT", "-04:00"), ("EEST", "+03:00"),
    ("EET", "+02:00"), ("EGST", "+00:00"), ("EGT", "-01:00"), ("EST", "-05:00"), ("FET", "+03:00"), ("FJT", "+12:00"),
    ("FKST", "-03:00"), ("FKT", "-04:00"), ("FNT", "-02:00"), ("GALT", "-06:00"), ("GAMT", "-09:00"), ("GET", "+04:00"),
    ("GFT", "-03:00"), ("GILT", "+12:00"), ("GIT", "-09:00"), ("GMT", "+00:00"), ("GST", "-02:00"), ("GYT", "-04:00"),
    ("HAEC", "+02:00"), ("HDT", "-09:00"), ("HKT", "+08:00"), ("HMT", "+05:00"), ("HOVST", "+08:00"), ("HOVT", "+07:00"),
    ("HST", "-10:00"), ("ICT", "+07:00"), ("IDLW", "-12:00"), ("IDT", "+03:00"), ("IOT", "+06:00"), ("IRDT", "+04:30"),
    ("IRKT", "+08:00"), ("IRST", "+03:30"), ("IST", "+01:00"), ("JST", "+09:00"), ("KALT", "+02:00"), ("KGT", "+06:00"),
    ("KOST", "+11:00"), ("KRAT", "+07:00"), ("KST", "+09:00"), ("LHST", "+10:30"), ("LHST", "+11:00"), ("LINT", "+14:00"),
    ("MAGT", "+12:00"), ("MART", "−09:30"), ("MAWT", "+05:00"), ("MDT", "-06:00"), ("MEST", "+02:00"), ("MET", "+01:00"),
    ("MHT", "+12:00"), ("MIST", "+11:00"), ("MIT", "−09:30"), ("MMT", "+06:30"), ("MSK", "+03:00"), ("MST", "-07:00"),
    ("MUT", "+04:00"), ("MVT", "+05:00"), ("MYT", "+08:00"), ("NCT", "+11:00"), ("NDT", "−02:30"), ("NFT", "+11:00"),
    ("NOVT", "+07:00"), ("NPT", "+05:45"), ("NST", "−03:30"), ("NT", "−03:30"), ("NUT", "-11:00"), ("NZDT", "+13:00"),
    ("NZST", "+12:00"), ("OMST", "+06:00"), ("ORAT", "+05:00"), ("PDT", "-07:00"), ("PET", "-05:00"), ("PETT", "+12:00"),
    ("PGT", "+10:00"), ("PHOT", "+13:00"), ("PHST", "+08:00"), ("PHT", "+08:00"), ("PKT", "+05:00"), ("PMDT", "-02:00"),
    ("PMST", "-03:00"), ("PONT", "+11:00"), ("PST", "-08:00"), ("PWT", "+09:00"), ("PYST", "-03:00"), ("PYT", "-04:00"),
    ("RET", "+04:00"), ("ROTT", "-03:00"), ("SAKT", "+11:00"), ("SAMT", "+04:00"), ("SAST", "+02:00"), ("SBT", "+11:00"),
    ("SCT", "+04:00"), ("SDT", "-10:00"), ("SGT", "+08:00"), ("SLST", "+05:30"), ("SRET", "+11:00"), ("SRT", "-03:00"),
    ("SST", "+08:00"), ("SYOT", "+03:00"), ("TAHT", "-10:00"), ("TFT", "+05:00"), ("THA", "+07:00"), ("TJT", "+05:00"),
    ("TKT", "+13:00"), ("TLT", "+09:00"), ("TMT", "+05:00"), ("TOT", "+13:00"), ("TRT", "+03:00"), ("TST", "+08:00"),
    ("TVT", "+12:00"), ("ULAST", "+09:00"), ("ULAT", "+08:00"), ("UTC", "+00:00"), ("UYST", "-02:00"), ("UYT", "-03:00"),
    ("UZT", "+05:00"), ("VET", "-04:00"), ("VLAT", "+10:00"), ("VOLT", "+03:00"), ("VOST", "+06:00"), ("VUT", "+11:00"),
    ("WAKT", "+12:00"), ("WAST", "+02:00"), ("WAT", "+01:00"), ("WEST", "+01:00"), ("WET", "+00:00"), ("WGST", "-02:00"),
    ("WGT", "-03:00"), ("WIB", "+07:00"), ("WIT", "+09:00"), ("WITA", "+08:00"), ("WST", "+08:00"), ("YAKT", "+09:00"),
    ("YEKT", "+05:00"),
] }

// ------------------------------------------------------------------ pings
/// the samples of the run of ping updates at p: (player number, ping)
pub open spec fn ping_run(b: Seq<u8>, p: int) -> Seq<(u8, u16)>
    decreases if p <= b.len() { b.len() - p } else { 0 }
{
    if 0 <= p && p + 5 <= b.len() && b[p] == 36 {
        seq![(b[p + 1], le2(b.subrange(p + 2, p + 4)) as u16)] + ping_run(b, p + 7)
    } else { Seq::empty() }
}
/// the samples of the first `left` frames from i on that have any
pub open spec fn ping_samples(d: Seq<u8>, i: int, left: int) -> Seq<(u8, u16)>
    decreases d.len() - i
{
    match frame_at(d, i) {
        None => Seq::empty(),
        Some(f) => if left <= 0 || f.hdr < 1 || f.body < 0 { Seq::empty() } else {
            let r = ping_run(body_at(d, i, f), 0);
            r + ping_samples(d, next_at(i, f), if r.len() > 0 { left - 1 } else { left })
        },
    }
}
pub open spec fn vals(s: Seq<(u8, u16)>, n: u8) -> Seq<u16>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        (if s[0].0 == n { seq![s[0].1] } else { Seq::empty() }) + vals(s.drop_first(), n)
    }
}
pub open spec fn usum(s: Seq<u16>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() } }
pub broadcast proof fn lemma_usum(s: Seq<u16>)
    ensures 0 <= #[trigger] usum(s) <= 65535 * s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_usum(s.drop_last()); } }
pub proof fn lemma_usum_step(s: Seq<u16>, k: int)
    requires 0 <= k < s.len()
    ensures usum(s.subrange(0, k + 1)) == usum(s.subrange(0, k)) + s[k]
{ assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub proof fn lemma_avg(s: Seq<u16>)
    ensures s.len() > 0 ==> 0 <= avg_of(s) <= 65535
{
    lemma_usum(s);
    if s.len() > 0 {
        let t = usum(s); let n = s.len() as int;
        assert(0 <= t / n <= 65535) by (nonlinear_arith) requires 0 <= t <= 65535 * n, n > 0;
    }
}
pub open spec fn avg_of(s: Seq<u16>) -> int { usum(s) / s.len() as int }
pub proof fn lemma_vals_cat(a: Seq<(u8, u16)>, b: Seq<(u8, u16)>, n: u8)
    ensures vals(a + b, n) =~= vals(a, n) + vals(b, n)
    decreases a.len()
{
    if a.len() > 0 { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_vals_cat(a.drop_first(), b, n); }
    else { assert(a + b =~= b); }
}
pub proof fn lemma_vals_len(a: Seq<(u8, u16)>, n: u8)
    ensures vals(a, n).len() <= a.len()
    decreases a.len()
{ if a.len() > 0 { lemma_vals_len(a.drop_first(), n); } }
pub proof fn lemma_vals_some(a: Seq<(u8, u16)>)
    ensures a.len() > 0 ==> vals(a, a[0].0).len() > 0
{}
pub proof fn lemma_ping_run_len(b: Seq<u8>, p: int)
    requires 0 <= p
    ensures ping_run(b, p).len() <= b.len()
    decreases b.len() - p
{
    lemma_ping_run_len2(b, p);
}
proof fn lemma_ping_run_len2(b: Seq<u8>, p: int)
    requires 0 <= p
    ensures p <= b.len() ==> ping_run(b, p).len() <= b.len() - p, p > b.len() ==> ping_run(b, p).len() == 0
    decreases if p <= b.len() { b.len() - p } else { 0 }
{ if p + 5 <= b.len() && b[p] == 36 { lemma_ping_run_len2(b, p + 7); } }
pub proof fn lemma_ping_samples_len(d: Seq<u8>, i: int, left: int)
    ensures 0 <= i <= d.len() ==> ping_samples(d, i, left).len() <= d.len() - i
    decreases d.len() - i
{
    if let Some(f) = frame_at(d, i) {
        if left > 0 {
            let b = body_at(d, i, f);
            lemma_ping_run_len(b, 0);
            lemma_ping_samples_len(d, next_at(i, f), if ping_run(b, 0).len() > 0 { left - 1 } else { left });
        }
    }
}
/// the values collected so far for n
pub open spec fn got(m: Map<u8, Vec<u16>>, n: u8) -> Seq<u16> { if m.dom().contains(n) { m[n]@ } else { Seq::empty() } }
pub open spec fn collected(m: Map<u8, Vec<u16>>, rest: Seq<(u8, u16)>, total: Seq<(u8, u16)>) -> bool {
    &&& forall|n: u8| #[trigger] m.dom().contains(n) ==> m[n]@.len() > 0
    &&& forall|n: u8| got(m, n) + vals(rest, n) =~= #[trigger] vals(total, n)
}
/// moving one sample from the rest into the map
pub proof fn lemma_collect(m: Map<u8, Vec<u16>>, w: Map<u8, Vec<u16>>, x: (u8, u16), rest: Seq<(u8, u16)>, total: Seq<(u8, u16)>)
    requires collected(m, seq![x] + rest, total), w.dom() =~= m.dom().insert(x.0), w[x.0]@ =~= got(m, x.0).push(x.1),
        forall|n: u8| n != x.0 && m.dom().contains(n) ==> w[n] == m[n],
    ensures collected(w, rest, total)
{
    let r = seq![x] + rest;
    assert(r.drop_first() =~= rest);
    assert forall|n: u8| got(w, n) + vals(rest, n) =~= #[trigger] vals(total, n) by {
        assert(got(m, n) + vals(r, n) =~= vals(total, n));
        assert(vals(r, n) =~= (if x.0 == n { seq![x.1] } else { Seq::empty() }) + vals(rest, n));
    }
}
pub open spec fn ping_of(d: Seq<u8>, n: u8) -> Option<int> {
    let v = vals(ping_samples(d, 0, 8), n);
    if v.len() > 0 { Some(avg_of(v)) } else { None }
}
pub open spec fn has_pings(d: Seq<u8>) -> bool { ping_samples(d, 0, 8).len() > 0 }

// ------------------------------------------------------------------ players and teams
pub struct PlayerS {
    pub name: Seq<char>, pub team: Seq<char>, pub color: Seq<u8>, pub frags: i32, pub ping: u32,
    pub bot: bool, pub auth: Option<Seq<char>>, pub cc: Option<Seq<char>>,
}
pub open spec fn plv(p: crate::player::Player) -> PlayerS {
    PlayerS { name: p.name@, team: p.team@, color: seq![p.color@[0], p.color@[1]], frags: p.frags, ping: p.ping, bot: p.is_bot,
        auth: osv(p.auth_username), cc: osv(p.auth_cc) }
}
pub open spec fn plvs(s: Seq<crate::player::Player>) -> Seq<PlayerS> { s.map_values(|p: crate::player::Player| plv(p)) }
pub broadcast proof fn lemma_plvs_empty(s: Seq<crate::player::Player>)
    ensures s.len() == 0 ==> #[trigger] plvs(s) == Seq::<PlayerS>::empty()
{ if s.len() == 0 { assert(plvs(s) =~= Seq::empty()); } }
/// score from high to low, name among equals
pub open spec fn cmp_pl(a: PlayerS, b: PlayerS) -> int {
    if a.frags > b.frags { -1 } else if a.frags < b.frags { 1 } else { cmp_chars(a.name, b.name) }
}
pub open spec fn cmp_player(a: crate::player::Player, b: crate::player::Player) -> int { cmp_pl(plv(a), plv(b)) }
pub open spec fn by_score(s: Seq<PlayerS>) -> Seq<PlayerS> { isort(s, |a: PlayerS, b: PlayerS| cmp_pl(a, b)) }
pub proof fn lemma_cmp_pl(a: PlayerS, b: PlayerS, c: PlayerS)
    ensures cmp_pl(a, b) == -cmp_pl(b, a), cmp_pl(a, b) <= 0 && cmp_pl(b, c) <= 0 ==> cmp_pl(a, c) <= 0
{
    lemma_cmp_chars_anti(a.name, b.name);
    if cmp_chars(a.name, b.name) <= 0 && cmp_chars(b.name, c.name) <= 0 { lemma_cmp_chars_trans(a.name, b.name, c.name); }
}
pub broadcast proof fn lemma_total_player(c: spec_fn(crate::player::Player, crate::player::Player) -> int)
    requires forall|a: crate::player::Player, b: crate::player::Player| #[trigger] c(a, b) == cmp_player(a, b)
    ensures #[trigger] total_preorder(c),
{
    assert forall|a: crate::player::Player, b: crate::player::Player| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_pl(plv(a), plv(b), plv(a)); }
    assert forall|a: crate::player::Player, b: crate::player::Player| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_pl(plv(a), plv(b), plv(a)); }
    assert forall|a: crate::player::Player, b: crate::player::Player, d: crate::player::Player| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by {
        lemma_cmp_pl(plv(a), plv(b), plv(d));
    }
}
pub broadcast proof fn lemma_by_score(s: Seq<crate::player::Player>, c: spec_fn(crate::player::Player, crate::player::Player) -> int)
    requires forall|a: crate::player::Player, b: crate::player::Player| #[trigger] c(a, b) == cmp_player(a, b)
    ensures plvs(#[trigger] isort(s, c)) == by_score(plvs(s))
{
    lemma_isort_map(s, |p: crate::player::Player| plv(p), c, |a: PlayerS, b: PlayerS| cmp_pl(a, b));
}
/// the sorted player list is ordered and has the same entries, each as often
proof fn lemma_by_score_ok(s: Seq<PlayerS>)
    ensures by_score(s).to_multiset() == s.to_multiset(), by_score(s).len() == s.len(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] cmp_pl(by_score(s)[i], by_score(s)[j]) <= 0,
{
    let c = |a: PlayerS, b: PlayerS| cmp_pl(a, b);
    assert(total_preorder(c)) by {
        assert forall|a: PlayerS, b: PlayerS| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_pl(a, b, a); }
        assert forall|a: PlayerS, b: PlayerS| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_pl(a, b, a); }
        assert forall|a: PlayerS, b: PlayerS, d: PlayerS| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by { lemma_cmp_pl(a, b, d); }
    }
    lemma_isort(s, c);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] cmp_pl(by_score(s)[i], by_score(s)[j]) <= 0 by { assert(c(by_score(s)[i], by_score(s)[j]) <= 0); }
}
pub open spec fn of_stats(k: KPlayer) -> PlayerS {
    PlayerS { name: k.name@, team: k.team@, color: seq![k.top_color as u8, k.bottom_color as u8], frags: k.stats.frags, ping: k.ping as u32,
        bot: k.bot is Some || k.ping == 10, auth: if k.login@.len() > 0 { Some(k.login@) } else { None }, cc: None }
}
pub open spec fn stats_players(k: KtxstatsV3) -> Seq<PlayerS> { by_score(Seq::new(k.players@.len(), |i: int| of_stats(k.players@[i]))) }
pub open spec fn score(d: Seq<u8>, name: Seq<char>) -> int { match tally(d, name) { Some(x) => x, None => 0 } }
/// at most 256 clients
pub open spec fn few(d: Seq<u8>) -> bool { match clients_s(d) { Some(v) => v.len() <= 256, None => true } }
/// the numbers of the non-spectators among the first k clients
pub open spec fn kept(s: Seq<ClientS>, k: int) -> Seq<u8>
    decreases k
{ if k <= 0 { Seq::empty() } else if s[k - 1].spec { kept(s, k - 1) } else { kept(s, k - 1).push((k - 1) as u8) } }
pub proof fn lemma_few_keys(ks: Seq<u8>)
    requires keys_ascending::<u8>(ks)
    ensures ks.len() <= 256
{ if ks.len() > 256 { lemma_key_at(ks, 256); } }
proof fn lemma_key_at(ks: Seq<u8>, i: int)
    requires keys_ascending::<u8>(ks), 0 <= i < ks.len()
    ensures ks[i] >= i
    decreases i
{ if i > 0 { lemma_key_at(ks, i - 1); assert(u8::klt(ks[i - 1], ks[i])); } }
pub proof fn lemma_kept(s: Seq<ClientS>, k: int)
    requires 0 <= k <= s.len() <= 256
    ensures keys_ascending::<u8>(kept(s, k)), keep_spec(s.subrange(0, k), false) =~= kept(s, k).map_values(|n: u8| s[n as int]),
        forall|n: u8| #[trigger] kept(s, k).contains(n) <==> n < k && !s[n as int].spec,
        forall|i: int| 0 <= i < kept(s, k).len() ==> (#[trigger] kept(s, k)[i]) < k,
    decreases k
{
    if k > 0 {
        lemma_kept(s, k - 1);
        assert(s.subrange(0, k) =~= s.subrange(0, k - 1).push(s[k - 1]));
        let a = kept(s, k - 1); let b = kept(s, k);
        lemma_keep_spec_push(s.subrange(0, k - 1), s[k - 1], false);
        assert(((k - 1) as u8) as int == k - 1);
        assert(keep_spec(s.subrange(0, k), false) =~= b.map_values(|n: u8| s[n as int]));
        assert forall|n: u8| b.contains(n) <==> n < k && !s[n as int].spec by {
            if a.contains(n) { let i = choose|i: int| 0 <= i < a.len() && a[i] == n; assert(b[i] == n); }
            if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; if i < a.len() { assert(a[i] == n); } }
            if n == k - 1 && !s[n as int].spec { assert(b[a.len() as int] == n); }
            assert(a.contains(n) <==> n < k - 1 && !s[n as int].spec);
        }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]) < k by { if i < a.len() { assert(a[i] < k - 1); } }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies u8::klt(#[trigger] b[i], #[trigger] b[j]) by {
            if j < a.len() { assert(u8::klt(a[i], a[j])); } else { assert(a[i] < k - 1); }
        }
    }
}
pub open spec fn of_client(d: Seq<u8>, c: ClientS) -> PlayerS {
    PlayerS { name: c.name, team: c.team, color: seq![c.c0, c.c1], frags: score(d, c.name) as i32,
        ping: match ping_of(d, c.number) { Some(p) => p as u32, None => 0 }, bot: c.bot, auth: c.auth, cc: c.cc }
}
pub open spec fn parsed_players(d: Seq<u8>) -> Option<Seq<PlayerS>> {
    match player_clients_s(d) { Some(v) => if has_pings(d) { Some(by_score(v.map_values(|c: ClientS| of_client(d, c)))) } else { None }, None => None }
}
pub open spec fn players_s(d: Seq<u8>) -> Option<Seq<PlayerS>> {
    match ktx(d) { Some(k) => Some(stats_players(k)), None => parsed_players(d) }
}
/// two ascending lists with the same elements are the same list
pub proof fn lemma_asc_unique<K: VKey>(a: Seq<K::KV>, b: Seq<K::KV>)
    requires keys_ascending::<K>(a), keys_ascending::<K>(b), forall|x: K::KV| a.contains(x) <==> b.contains(x),
        forall|x: K::KV| !#[trigger] K::klt(x, x),
        forall|x: K::KV, y: K::KV, z: K::KV| #[trigger] K::klt(x, y) && #[trigger] K::klt(y, z) ==> K::klt(x, z),
    ensures a =~= b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
    } else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let x = a.last(); let y = b.last();
        if x != y {
            assert(a.contains(x)); let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
            assert(b.contains(y)); assert(a.contains(y)); let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
            assert(K::klt(b[i], b[b.len() - 1]));
            assert(K::klt(a[j], a[a.len() - 1]));
            assert(K::klt(x, x));
        }
        let c = a.drop_last(); let d = b.drop_last();
        assert forall|v: K::KV| c.contains(v) implies d.contains(v) by {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == v;
            assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == v;
            if j == b.len() - 1 { assert(K::klt(a[i], a[a.len() - 1])); }
            assert(d[j] == v);
        }
        assert forall|v: K::KV| d.contains(v) implies c.contains(v) by {
            let i = choose|i: int| 0 <= i < d.len() && d[i] == v;
            assert(b.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == v;
            if j == a.len() - 1 { assert(K::klt(b[i], b[b.len() - 1])); }
            assert(c[j] == v);
        }
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies K::klt(#[trigger] c[i], #[trigger] c[j]) by { assert(K::klt(a[i], a[j])); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies K::klt(#[trigger] d[i], #[trigger] d[j]) by { assert(K::klt(b[i], b[j])); }
        lemma_asc_unique::<K>(c, d);
        assert(a =~= c.push(x)); assert(b =~= d.push(y));
    }
}
// ------------------------------------------------------------------ teams
pub struct TeamS { pub name: Seq<char>, pub color: Seq<u8>, pub frags: i32, pub ping: u32, pub players: Seq<PlayerS> }
pub open spec fn tv(t: crate::team::Team) -> TeamS {
    TeamS { name: t.name@, color: seq![t.color@[0], t.color@[1]], frags: t.frags, ping: t.ping, players: plvs(t.players@) }
}
pub open spec fn tvs(s: Seq<crate::team::Team>) -> Seq<TeamS> { s.map_values(|t: crate::team::Team| tv(t)) }
pub open spec fn frag_sum(s: Seq<PlayerS>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { frag_sum(s.drop_last()) + s.last().frags } }
pub open spec fn ping_sum(s: Seq<PlayerS>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { ping_sum(s.drop_last()) + s.last().ping } }
pub broadcast proof fn lemma_sums(s: Seq<PlayerS>, x: PlayerS)
    ensures #[trigger] frag_sum(s.push(x)) == frag_sum(s) + x.frags, ping_sum(s.push(x)) == ping_sum(s) + x.ping
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_sum_range(s: Seq<PlayerS>)
    ensures -0x8000_0000 * s.len() <= frag_sum(s) <= 0x7fff_ffff * s.len(), 0 <= ping_sum(s) <= 0xffff_ffff * s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_sum_range(s.drop_last()); } }
pub open spec fn clamp32(x: int) -> int { if x < -0x8000_0000 { -0x8000_0000 } else if x > 0x7fff_ffff { 0x7fff_ffff } else { x } }
/// s / n to the nearest integer, halves up
pub open spec fn rounded(s: int, n: int) -> int { (2 * s + n) / (2 * n) }
pub proof fn lemma_rounded(s: int, n: int)
    requires 0 <= s <= 0xffff_ffff * n, 0 < n
    ensures (s + n / 2) / n == rounded(s, n), 0 <= rounded(s, n) <= 0xffff_ffff
{
    let h = n / 2; let q = (s + h) / n; let r = (s + h) % n;
    assert(s + h == q * n + r && 0 <= r < n) by (nonlinear_arith) requires q == (s + h) / n, r == (s + h) % n, n > 0;
    let e = n - 2 * h;
    assert(0 <= e <= 1);
    assert(2 * s + n == q * (2 * n) + (2 * r + e)) by (nonlinear_arith) requires s + h == q * n + r, e == n - 2 * h;
    assert((2 * s + n) / (2 * n) == q) by (nonlinear_arith) requires 2 * s + n == q * (2 * n) + (2 * r + e), 0 <= 2 * r + e < 2 * n;
    assert(0 <= q <= 0xffff_ffff) by (nonlinear_arith) requires s + h == q * n + r, 0 <= r < n, 0 <= s <= 0xffff_ffff * n, 0 <= h < n;
}
/// how often colour c is worn
pub open spec fn worn(s: Seq<Seq<u8>>, c: Seq<u8>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { worn(s.drop_last(), c) + if s.last() == c { 1nat } else { 0nat } } }
pub broadcast proof fn lemma_worn(s: Seq<Seq<u8>>, x: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] worn(s.push(x), c) == worn(s, c) + if x == c { 1nat } else { 0nat }
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_worn_some(s: Seq<Seq<u8>>, c: Seq<u8>)
    ensures (#[trigger] worn(s, c) > 0) == s.contains(c), worn(s, c) <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_worn_some(d, c);
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; if i < d.len() { assert(d[i] == c); } }
        if d.contains(c) { let i = choose|i: int| 0 <= i < d.len() && d[i] == c; assert(s[i] == c); }
        if s.last() == c { assert(s[s.len() - 1] == c); }
    }
}
/// s[i] is worn by most, and no colour worn as often appears before it
pub open spec fn elected(s: Seq<Seq<u8>>, i: int) -> bool {
    &&& 0 <= i < s.len()
    &&& forall|j: int| 0 <= j < s.len() ==> worn(s, #[trigger] s[j]) <= worn(s, s[i])
    &&& forall|j: int| 0 <= j < i ==> worn(s, #[trigger] s[j]) < worn(s, s[i])
}
pub open spec fn vote(s: Seq<Seq<u8>>) -> Seq<u8> {
    if s.len() <= 2 { s[0] } else { s[choose|i: int| elected(s, i)] }
}
pub broadcast proof fn lemma_elected(s: Seq<Seq<u8>>, i: int)
    requires #[trigger] elected(s, i), s.len() > 2
    ensures vote(s) == s[i]
{
    let k = choose|i: int| elected(s, i);
    assert(elected(s, k));
    if k < i { assert(worn(s, s[k]) < worn(s, s[i])); } else if i < k { assert(worn(s, s[i]) < worn(s, s[k])); }
}
pub open spec fn colour(c: [u8; 2]) -> Seq<u8> { seq![c@[0], c@[1]] }
pub open spec fn colours(s: Seq<[u8; 2]>) -> Seq<Seq<u8>> { s.map_values(|c: [u8; 2]| colour(c)) }
pub open spec fn shirts(s: Seq<PlayerS>) -> Seq<Seq<u8>> { s.map_values(|p: PlayerS| p.color) }
pub open spec fn team_of(s: Seq<PlayerS>) -> TeamS {
    if s.len() == 0 { TeamS { name: Seq::empty(), color: seq![0u8, 0u8], frags: 0, ping: 0, players: Seq::empty() } }
    else { TeamS { name: s[0].team, color: vote(shirts(s)), frags: clamp32(frag_sum(s)) as i32, ping: rounded(ping_sum(s), s.len() as int) as u32, players: s } }
}
/// the players of team t, in order
pub open spec fn group(s: Seq<PlayerS>, t: Seq<char>) -> Seq<PlayerS>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last().team == t { group(s.drop_last(), t).push(s.last()) } else { group(s.drop_last(), t) }
}
pub broadcast proof fn lemma_group(s: Seq<PlayerS>, x: PlayerS, t: Seq<char>)
    ensures #[trigger] group(s.push(x), t) == (if x.team == t { group(s, t).push(x) } else { group(s, t) })
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_group_ok(s: Seq<PlayerS>, t: Seq<char>)
    ensures group(s, t).len() <= s.len(), forall|i: int| 0 <= i < group(s, t).len() ==> (#[trigger] group(s, t)[i]).team == t,
        group(s, t).len() > 0 <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).team == t,
        group(s, t) == s.filter(|p: PlayerS| p.team == t)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_group_ok(d, t);
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).team == t {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).team == t;
            if i < d.len() { assert(d[i].team == t); }
        }
        if group(s, t).len() > 0 {
            if s.last().team == t { assert(s[s.len() - 1].team == t); }
            else { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).team == t; assert(s[i].team == t); }
        }
    }
}
/// the team names in ascending order, each once
pub open spec fn lists_teams(ks: Seq<Seq<char>>, s: Seq<PlayerS>) -> bool {
    keys_ascending::<String>(ks) && forall|t: Seq<char>| #[trigger] ks.contains(t) <==> group(s, t).len() > 0
}
pub open spec fn team_keys(s: Seq<PlayerS>) -> Seq<Seq<char>> { choose|ks: Seq<Seq<char>>| lists_teams(ks, s) }
pub broadcast proof fn lemma_team_keys(ks: Seq<Seq<char>>, s: Seq<PlayerS>)
    requires #[trigger] lists_teams(ks, s)
    ensures ks == team_keys(s)
{
    let o = team_keys(s);
    assert(lists_teams(o, s));
    assert forall|x: Seq<char>| !#[trigger] String::klt(x, x) by { lemma_cmp_chars_anti(x, x); }
    assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] String::klt(x, y) && #[trigger] String::klt(y, z) implies String::klt(x, z) by { lemma_cmp_chars_trans(x, y, z); }
    lemma_asc_unique::<String>(ks, o);
}
/// name ignoring case
pub open spec fn cmp_tm(a: TeamS, b: TeamS) -> int { cmp_chars(lower(a.name), lower(b.name)) }
pub open spec fn cmp_team(a: crate::team::Team, b: crate::team::Team) -> int { cmp_tm(tv(a), tv(b)) }
pub open spec fn by_name(s: Seq<TeamS>) -> Seq<TeamS> { isort(s, |a: TeamS, b: TeamS| cmp_tm(a, b)) }
pub open spec fn teams_of_players(s: Seq<PlayerS>) -> Seq<TeamS> { by_name(team_keys(s).map_values(|t: Seq<char>| team_of(group(s, t)))) }
pub proof fn lemma_cmp_tm(a: TeamS, b: TeamS, c: TeamS)
    ensures cmp_tm(a, b) == -cmp_tm(b, a), cmp_tm(a, b) <= 0 && cmp_tm(b, c) <= 0 ==> cmp_tm(a, c) <= 0
{
    lemma_cmp_chars_anti(lower(a.name), lower(b.name));
    if cmp_tm(a, b) <= 0 && cmp_tm(b, c) <= 0 { lemma_cmp_chars_trans(lower(a.name), lower(b.name), lower(c.name)); }
}
pub broadcast proof fn lemma_total_team(c: spec_fn(crate::team::Team, crate::team::Team) -> int)
    requires forall|a: crate::team::Team, b: crate::team::Team| #[trigger] c(a, b) == cmp_team(a, b)
    ensures #[trigger] total_preorder(c),
{
    assert forall|a: crate::team::Team, b: crate::team::Team| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_tm(tv(a), tv(b), tv(a)); }
    assert forall|a: crate::team::Team, b: crate::team::Team| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_tm(tv(a), tv(b), tv(a)); }
    assert forall|a: crate::team::Team, b: crate::team::Team, d: crate::team::Team| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by {
        lemma_cmp_tm(tv(a), tv(b), tv(d));
    }
}
pub broadcast proof fn lemma_by_name(s: Seq<crate::team::Team>, c: spec_fn(crate::team::Team, crate::team::Team) -> int)
    requires forall|a: crate::team::Team, b: crate::team::Team| #[trigger] c(a, b) == cmp_team(a, b)
    ensures tvs(#[trigger] isort(s, c)) == by_name(tvs(s))
{
    lemma_isort_map(s, |t: crate::team::Team| tv(t), c, |a: TeamS, b: TeamS| cmp_tm(a, b));
}
/// the reported teams are exactly those of the players, each once, in order of their names
proof fn lemma_teams_ok(s: Seq<PlayerS>, ks: Seq<Seq<char>>)
    requires lists_teams(ks, s)
    ensures ({ let r = teams_of_players(s);
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] cmp_tm(r[i], r[j]) <= 0
        &&& r.to_multiset() == ks.map_values(|t: Seq<char>| team_of(group(s, t))).to_multiset()
        &&& forall|t: Seq<char>| ks.contains(t) ==> #[trigger] team_of(group(s, t)).name == t
        &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
        &&& forall|i: int| 0 <= i < s.len() ==> ks.contains((#[trigger] s[i]).team)
    })
{
    lemma_team_keys(ks, s);
    let c = |a: TeamS, b: TeamS| cmp_tm(a, b);
    let u = ks.map_values(|t: Seq<char>| team_of(group(s, t)));
    assert(total_preorder(c)) by {
        assert forall|a: TeamS, b: TeamS| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_tm(a, b, a); }
        assert forall|a: TeamS, b: TeamS| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_tm(a, b, a); }
        assert forall|a: TeamS, b: TeamS, d: TeamS| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by { lemma_cmp_tm(a, b, d); }
    }
    lemma_isort(u, c);
    let r = teams_of_players(s);
    assert(r == isort(u, c));
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] cmp_tm(r[i], r[j]) <= 0 by { assert(c(r[i], r[j]) <= 0); }
    assert forall|t: Seq<char>| ks.contains(t) implies #[trigger] team_of(group(s, t)).name == t by { lemma_group_ok(s, t); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(String::klt(ks[i], ks[j])); lemma_cmp_chars_anti(ks[i], ks[j]); }
    assert forall|i: int| 0 <= i < s.len() implies ks.contains((#[trigger] s[i]).team) by { lemma_group_ok(s, s[i].team); }
}
/// the players collected so far, by team
pub open spec fn grouped(m: Map<Seq<char>, Vec<crate::player::Player>>, s: Seq<PlayerS>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] m.dom().contains(t) <==> group(s, t).len() > 0
    &&& forall|t: Seq<char>| m.dom().contains(t) ==> plvs(#[trigger] m[t]@) =~= group(s, t)
}
pub proof fn lemma_grouped(m: Map<Seq<char>, Vec<crate::player::Player>>, w: Map<Seq<char>, Vec<crate::player::Player>>, s: Seq<PlayerS>, p: crate::player::Player)
    requires grouped(m, s), w.dom() =~= m.dom().insert(p.team@),
        w[p.team@]@ =~= (if m.dom().contains(p.team@) { m[p.team@]@ } else { Seq::empty() }).push(p),
        forall|t: Seq<char>| t != p.team@ && m.dom().contains(t) ==> w[t] == m[t],
    ensures grouped(w, s.push(plv(p)))
{
    let t0 = p.team@;
    assert(plv(p).team == t0);
    assert(w.dom() == m.dom().insert(t0));
    assert forall|t: Seq<char>| #[trigger] w.dom().contains(t) <==> group(s.push(plv(p)), t).len() > 0 by {
        lemma_group(s, plv(p), t);
        assert(m.dom().contains(t) <==> group(s, t).len() > 0);
        assert(w.dom().contains(t) <==> m.dom().contains(t) || t == t0);
    }
    assert forall|t: Seq<char>| w.dom().contains(t) implies plvs(#[trigger] w[t]@) =~= group(s.push(plv(p)), t) by {
        assert(m.dom().contains(t) <==> group(s, t).len() > 0);
        lemma_group(s, plv(p), t);
        assert(w.dom().contains(t) <==> m.dom().contains(t) || t == t0);
        if t == t0 { assert(plvs(w[t0]@) =~= plvs(if m.dom().contains(t0) { m[t0]@ } else { Seq::empty() }).push(plv(p))); }
    }
}

// ------------------------------------------------------------------ obituaries
pub open spec fn deaths() -> Seq<&'static str> { seq![
    " sleeps with the fishes", " sucks it down", " gulped a load of slime", " can't exist on slime alone", " burst into flames",
    " turned into hot slag", " visits the Volcano God", " cratered", " fell to his death", " fell to her death", " blew up",
    " was spiked", " was zapped", " ate a lavaball", " died", " tried to leave", " was squished",
] }
pub open spec fn own_weapon() -> Seq<&'static str> { seq![
    " tries to put the pin back in", " becomes bored with life", " discovers blast radius", " electrocutes himself",
    " electrocutes herself", " railcutes himself", " railcutes herself", " discharges into the slime",
    " discharges into the lava", " discharges into the water", " heats up the water",
] }
pub open spec fn mate_kills() -> Seq<&'static str> { seq![
    " squished a teammate", " mows down a teammate", " checks his glasses", " checks her glasses",
    " gets a frag for the other team", " loses another friend",
] }
pub open spec fn killed_by_mate() -> Seq<&'static str> { seq![
    " was telefragged by his teammate", " was telefragged by her teammate", " was crushed by his teammate",
    " was crushed by her teammate", " was jumped by his teammate", " was jumped by her teammate",
] }
pub open spec fn killer_first() -> Seq<&'static str> { seq![" stomps ", " squishes ", " rips \"??\" a new one"] }
pub open spec fn victim_first() -> Seq<&'static str> { seq![
    " was ax-murdered by ", " softens \"??\"'s fall", " tried to catch ", " was crushed by ", " was jumped by ",
    " chewed on \"??\"'s boomstick", " was body pierced by ", " was nailed by ", " was railed by ", " was telefragged by ",
    " accepts \"??\"'s discharge", " drains \"??\"'s batteries", " was lead poisoned by ", " accepts \"??\"'s shaft",
    " ate 2 loads of \"??\"'s buckshot", " was perforated by ", " was punctured by ", " was ventilated by ",
    " ate 8 loads of \"??\"'s buckshot", " gets a natural disaster from ", " rides \"??\"'s rocket",
    " was gibbed by \"??\"'s rocket", " was straw-cuttered by ", " eats \"??\"'s pineapple", " was gibbed by \"??\"'s grenade",
    " was brutalized by \"??\"'s quad rocket", " was smeared by \"??\"'s quad rocket", " was hooked by ",
] }
/// no victim-first phrase is a killer-first phrase
pub proof fn lemma_phrases_apart()
    ensures forall|k: int, i: int| 0 <= k < 28 && 0 <= i < 3 ==> (#[trigger] victim_first()[k])@ != (#[trigger] killer_first()[i])@
{
    reveal_strlit(" stomps "); reveal_strlit(" squishes "); reveal_strlit(" rips \"??\" a new one");
    reveal_strlit(" was ax-murdered by ");
    reveal_strlit(" softens \"??\"'s fall");
    reveal_strlit(" tried to catch ");
    reveal_strlit(" was crushed by ");
    reveal_strlit(" was jumped by ");
    reveal_strlit(" chewed on \"??\"'s boomstick");
    reveal_strlit(" was body pierced by ");
    reveal_strlit(" was nailed by ");
    reveal_strlit(" was railed by ");
    reveal_strlit(" was telefragged by ");
    reveal_strlit(" accepts \"??\"'s discharge");
    reveal_strlit(" drains \"??\"'s batteries");
    reveal_strlit(" was lead poisoned by ");
    reveal_strlit(" accepts \"??\"'s shaft");
    reveal_strlit(" ate 2 loads of \"??\"'s buckshot");
    reveal_strlit(" was perforated by ");
    reveal_strlit(" was punctured by ");
    reveal_strlit(" was ventilated by ");
    reveal_strlit(" ate 8 loads of \"??\"'s buckshot");
    reveal_strlit(" gets a natural disaster from ");
    reveal_strlit(" rides \"??\"'s rocket");
    reveal_strlit(" was gibbed by \"??\"'s rocket");
    reveal_strlit(" was straw-cuttered by ");
    reveal_strlit(" eats \"??\"'s pineapple");
    reveal_strlit(" was gibbed by \"??\"'s grenade");
    reveal_strlit(" was brutalized by \"??\"'s quad rocket");
    reveal_strlit(" was smeared by \"??\"'s quad rocket");
    reveal_strlit(" was hooked by ");
    assert(killer_first()[0]@[2] == 't' && killer_first()[1]@[2] == 'q' && killer_first()[2]@[1] == 'r' && killer_first()[2]@[3] == 'p' && killer_first()[0]@[1] == 's' && killer_first()[1]@[1] == 's');
    assert(victim_first()[0]@[1] == 'w' && victim_first()[0]@[2] == 'a' && victim_first()[0]@[3] == 's');
    assert(victim_first()[1]@[1] == 's' && victim_first()[1]@[2] == 'o' && victim_first()[1]@[3] == 'f');
    assert(victim_first()[2]@[1] == 't' && victim_first()[2]@[2] == 'r' && victim_first()[2]@[3] == 'i');
    assert(victim_first()[3]@[1] == 'w' && victim_first()[3]@[2] == 'a' && victim_first()[3]@[3] == 's');
    assert(victim_first()[4]@[1] == 'w' && victim_first()[4]@[2] == 'a' && victim_first()[4]@[3] == 's');
    assert(victim_first()[5]@[1] == 'c' && victim_first()[5]@[2] == 'h' && victim_first()[5]@[3] == 'e');
    assert(victim_first()[6]@[1] == 'w' && victim_first()[6]@[2] == 'a' && victim_first()[6]@[3] == 's');
    assert(victim_first()[7]@[1] == 'w' && victim_first()[7]@[2] == 'a' && victim_first()[7]@[3] == 's');
    assert(victim_first()[8]@[1] == 'w' && victim_first()[8]@[2] == 'a' && victim_first()[8]@[3] == 's');
    assert(victim_first()[9]@[1] == 'w' && victim_first()[9]@[2] == 'a' && victim_first()[9]@[3] == 's');
    assert(victim_first()[10]@[1] == 'a' && victim_first()[10]@[2] == 'c' && victim_first()[10]@[3] == 'c');
    assert(victim_first()[11]@[1] == 'd' && victim_first()[11]@[2] == 'r' && victim_first()[11]@[3] == 'a');
    assert(victim_first()[12]@[1] == 'w' && victim_first()[12]@[2] == 'a' && victim_first()[12]@[3] == 's');
    assert(victim_first()[13]@[1] == 'a' && victim_first()[13]@[2] == 'c' && victim_first()[13]@[3] == 'c');
    assert(victim_first()[14]@[1] == 'a' && victim_first()[14]@[2] == 't' && victim_first()[14]@[3] == 'e');
    assert(victim_first()[15]@[1] == 'w' && victim_first()[15]@[2] == 'a' && victim_first()[15]@[3] == 's');
    assert(victim_first()[16]@[1] == 'w' && victim_first()[16]@[2] == 'a' && victim_first()[16]@[3] == 's');
    assert(victim_first()[17]@[1] == 'w' && victim_first()[17]@[2] == 'a' && victim_first()[17]@[3] == 's');
    assert(victim_first()[18]@[1] == 'a' && victim_first()[18]@[2] == 't' && victim_first()[18]@[3] == 'e');
    assert(victim_first()[19]@[1] == 'g' && victim_first()[19]@[2] == 'e' && victim_first()[19]@[3] == 't');
    assert(victim_first()[20]@[1] == 'r' && victim_first()[20]@[2] == 'i' && victim_first()[20]@[3] == 'd');
    assert(victim_first()[21]@[1] == 'w' && victim_first()[21]@[2] == 'a' && victim_first()[21]@[3] == 's');
    assert(victim_first()[22]@[1] == 'w' && victim_first()[22]@[2] == 'a' && victim_first()[22]@[3] == 's');
    assert(victim_first()[23]@[1] == 'e' && victim_first()[23]@[2] == 'a' && victim_first()[23]@[3] == 't');
    assert(victim_first()[24]@[1] == 'w' && victim_first()[24]@[2] == 'a' && victim_first()[24]@[3] == 's');
    assert(victim_first()[25]@[1] == 'w' && victim_first()[25]@[2] == 'a' && victim_first()[25]@[3] == 's');
    assert(victim_first()[26]@[1] == 'w' && victim_first()[26]@[2] == 'a' && victim_first()[26]@[3] == 's');
    assert(victim_first()[27]@[1] == 'w' && victim_first()[27]@[2] == 'a' && victim_first()[27]@[3] == 's');
}
pub enum Ev {
    Death(Seq<char>), Weapon(Seq<char>), Suicide(Seq<char>), Mate(Seq<char>), ByMate(Seq<char>), Kill(Seq<char>, Seq<char>),
}
pub open spec fn fev(e: crate::qw::fragevent::FragEvent) -> Ev {
    match e {
        crate::qw::fragevent::FragEvent::Death { player } => Ev::Death(player@),
        crate::qw::fragevent::FragEvent::SuicideByWeapon { player } => Ev::Weapon(player@),
        crate::qw::fragevent::FragEvent::Suicide { player } => Ev::Suicide(player@),
        crate::qw::fragevent::FragEvent::Teamkill { killer } => Ev::Mate(killer@),
        crate::qw::fragevent::FragEvent::TeamkillByUnknown { victim } => Ev::ByMate(victim@),
        crate::qw::fragevent::FragEvent::Frag { killer, victim } => Ev::Kill(killer@, victim@),
    }
}
/// the text in front of the first occurrence of the first of the phrases from k on that occurs
pub open spec fn before(t: Seq<char>, phrases: Seq<&'static str>, k: int) -> Option<Seq<char>>
    decreases phrases.len() - k
{
    if k < 0 || k >= phrases.len() { None } else {
        match find_sub(t, phrases[k]@) { Some(i) => Some(t.subrange(0, i)), None => before(t, phrases, k + 1) }
    }
}
/// the two names around a phrase; "??" stands for the second name when it is embedded
pub open spec fn two_names(t: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match split1(p, "\"??\""@) {
        None => split1(t, p),
        Some((a, b)) => match split1(t, a) {
            None => None,
            Some((x, rest)) => match rsplit1(rest, b) { None => None, Some((y, _)) => Some((x, y)) },
        },
    }
}
pub open spec fn kill_in(t: Seq<char>, k: int) -> Option<Ev>
    decreases 31 - k
{
    if k < 0 || k >= 31 { None } else {
        let p = if k < 3 { killer_first()[k] } else { victim_first()[k - 3] };
        match two_names(t, p@) {
            Some((x, y)) => Some(if k < 3 { Ev::Kill(x, y) } else { Ev::Kill(y, x) }),
            None => kill_in(t, k + 1),
        }
    }
}
pub open spec fn classify(t: Seq<char>) -> Option<Ev> {
    match before(t, deaths(), 0) { Some(x) => Some(Ev::Death(x)), None =>
    match before(t, own_weapon(), 0) { Some(x) => Some(Ev::Weapon(x)), None =>
    if ends_with(t, " suicides"@) { Some(Ev::Suicide(trim_end_matches(t, " suicides"@))) } else {
    match before(t, mate_kills(), 0) { Some(x) => Some(Ev::Mate(x)), None =>
    match before(t, killed_by_mate(), 0) { Some(x) => Some(Ev::ByMate(x)), None => kill_in(t, 0) } } } } }
}

// ------------------------------------------------------------------ scores
pub struct Obit { pub text: Seq<char>, pub at: int }
/// the body of a frame that begins with a non-empty medium-severity print
pub open spec fn is_obit(b: Seq<u8>) -> bool {
    b.len() > 0 && b[0] == 8 && match print_at(b, 1) { Some((p, q)) => p.id == 1 && p.content.len() > 0, None => false }
}
pub open spec fn obit_text(content: Seq<u8>) -> Seq<char> { trim_end_matches(uni(content), seq!['\n']) }
pub open spec fn obits(d: Seq<u8>, i: int) -> Seq<Obit>
    decreases d.len() - i
{
    match frame_at(d, i) {
        None => Seq::empty(),
        Some(f) => if f.hdr < 1 || f.body < 0 { Seq::empty() } else {
            let b = body_at(d, i, f);
            (if is_obit(b) { seq![Obit { text: obit_text(print_at(b, 1)->Some_0.0.content), at: i }] } else { Seq::empty() }) + obits(d, next_at(i, f))
        },
    }
}
pub proof fn lemma_obits_len(d: Seq<u8>, i: int)
    ensures 0 <= i <= d.len() ==> obits(d, i).len() * 5 <= d.len() - i
    decreases d.len() - i
{
    if let Some(f) = frame_at(d, i) { lemma_obits_len(d, next_at(i, f)); }
}
/// read from its type byte instead of its severity byte, an obituary ends at the same place
pub proof fn lemma_obit_end(b: Seq<u8>)
    requires is_obit(b)
    ensures print_at(b, 0) is Some && print_at(b, 0)->Some_0.1 == print_at(b, 1)->Some_0.1
{ assert(pid_of(0) != 1); assert(b[1] != 0); assert(zero_at(b, 1) == zero_at(b, 2)); }
/// the numbers of the score updates that follow the obituary in its frame and open the next two non-empty frames
pub open spec fn updates(d: Seq<u8>, i: int, nth: int) -> Seq<u8>
    decreases d.len() - i
{
    match frame_at(d, i) {
        None => Seq::empty(),
        Some(f) => if nth > 3 || f.hdr < 1 || f.body < 0 { Seq::empty() }
            else if f.body == 0 { updates(d, next_at(i, f), nth) }
            else {
                let b = body_at(d, i, f);
                let p = if nth == 1 { match print_at(b, 1) { Some((x, q)) => q, None => 0 } } else { 0 };
                (if p + 4 <= b.len() && b[p] == 14 { seq![b[p + 1]] } else { Seq::empty() }) + updates(d, next_at(i, f), nth + 1)
            },
    }
}
pub open spec fn named(s: Seq<ClientS>, name: Seq<char>, k: int) -> Option<ClientS>
    decreases s.len() - k
{ if k < 0 || k >= s.len() { None } else if s[k].name == name { Some(s[k]) } else { named(s, name, k + 1) } }
pub open spec fn numbered(s: Seq<ClientS>, n: u8, k: int) -> Option<ClientS>
    decreases s.len() - k
{ if k < 0 || k >= s.len() { None } else if s[k].number == n { Some(s[k]) } else { numbered(s, n, k + 1) } }
pub open spec fn mate_of(s: Seq<ClientS>, v: ClientS, n: Seq<u8>, k: int) -> Option<Seq<char>>
    decreases n.len() - k
{
    if k < 0 || k >= n.len() { None } else {
        match numbered(s, n[k], 0) {
            Some(c) => if c.team == v.team && c.name != v.name { Some(c.name) } else { mate_of(s, v, n, k + 1) },
            None => mate_of(s, v, n, k + 1),
        }
    }
}
/// who is charged for the team kill reported by the obituary at frame i
pub open spec fn team_killer(d: Seq<u8>, i: int, victim: Seq<char>) -> Option<Seq<char>> {
    match clients_s(d) {
        None => None,
        Some(s) => match named(s, victim, 0) { None => None, Some(v) => mate_of(s, v, updates(d, i, 1), 0) },
    }
}
pub open spec fn effect(d: Seq<u8>, o: Obit) -> Option<(Seq<char>, int)> {
    match classify(o.text) {
        None => None,
        Some(Ev::Kill(k, v)) => Some((k, 1)),
        Some(Ev::Death(x)) => Some((x, -1)),
        Some(Ev::Weapon(x)) => Some((x, -1)),
        Some(Ev::Mate(x)) => Some((x, -1)),
        Some(Ev::Suicide(x)) => Some((x, -2)),
        Some(Ev::ByMate(v)) => match team_killer(d, o.at, v) { Some(k) => Some((k, -1)), None => None },
    }
}
pub open spec fn orz(o: Option<int>) -> int { match o { Some(x) => x, None => 0 } }
pub open spec fn tally_of(d: Seq<u8>, s: Seq<Obit>, name: Seq<char>) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        let t = tally_of(d, s.drop_last(), name);
        match effect(d, s.last()) { Some((n, x)) => if n == name { Some(orz(t) + x) } else { t }, None => t }
    }
}
pub broadcast proof fn lemma_tally(d: Seq<u8>, s: Seq<Obit>, o: Obit, name: Seq<char>)
    ensures #[trigger] tally_of(d, s.push(o), name) == (match effect(d, o) { Some((n, x)) => if n == name { Some(orz(tally_of(d, s, name)) + x) } else { tally_of(d, s, name) }, None => tally_of(d, s, name) })
{ assert(s.push(o).drop_last() =~= s); }
pub proof fn lemma_tally_range(d: Seq<u8>, s: Seq<Obit>, name: Seq<char>)
    ensures -2 * s.len() <= orz(tally_of(d, s, name)) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_tally_range(d, s.drop_last(), name); } }
pub open spec fn tally(d: Seq<u8>, name: Seq<char>) -> Option<int> { tally_of(d, obits(d, 0), name) }
/// the print records collected by the first pass
pub open spec fn obs(s: Seq<(crate::qw::message::print::Print, crate::qw::frame::Info)>) -> Seq<Obit> {
    s.map_values(|x: (crate::qw::message::print::Print, crate::qw::frame::Info)| Obit { text: obit_text(x.0.content@), at: x.1.index as int })
}
/// every collected print opens its frame
pub open spec fn from_frames(d: Seq<u8>, s: Seq<(crate::qw::message::print::Print, crate::qw::frame::Info)>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] obit_frame(d, s[k].1.index as int)
}
pub open spec fn obit_frame(d: Seq<u8>, i: int) -> bool {
    0 <= i <= d.len() && frame_at(d, i) is Some && is_obit(body_at(d, i, frame_at(d, i)->Some_0))
}
pub open spec fn tallied(m: Map<Seq<char>, i32>, d: Seq<u8>, s: Seq<Obit>) -> bool {
    forall|n: Seq<char>| match #[trigger] tally_of(d, s, n) { Some(x) => m.dom().contains(n) && m[n] as int == x, None => !m.dom().contains(n) }
}
/// what a map that counted the obituaries before o becomes when o's effect is counted
pub proof fn lemma_tallied(m: Map<Seq<char>, i32>, d: Seq<u8>, s: Seq<Obit>, o: Obit)
    requires tallied(m, d, s), s.len() <= 0x3000_0000
    ensures effect(d, o) is None ==> tallied(m, d, s.push(o)),
        match effect(d, o) { None => true, Some((n, x)) => {
            let t = if m.dom().contains(n) { m[n] as int } else { 0 };
            -0x7000_0000 <= t <= 0x7000_0000 && forall|w: i32| w as int == t + x ==> #[trigger] tallied(m.insert(n, w), d, s.push(o)) } },
{
    match effect(d, o) {
        None => {
            assert forall|k: Seq<char>| match #[trigger] tally_of(d, s.push(o), k) { Some(y) => m.dom().contains(k) && m[k] as int == y, None => !m.dom().contains(k) } by {
                lemma_tally(d, s, o, k);
                assert(tally_of(d, s.push(o), k) == tally_of(d, s, k));
            }
        },
        Some((n, x)) => {
            lemma_tally_range(d, s, n);
            let t = if m.dom().contains(n) { m[n] as int } else { 0 };
            assert(match tally_of(d, s, n) { Some(x) => m.dom().contains(n) && m[n] as int == x, None => !m.dom().contains(n) });
            assert(t == orz(tally_of(d, s, n)));
            assert forall|w: i32| w as int == t + x implies #[trigger] tallied(m.insert(n, w), d, s.push(o)) by {
                assert forall|k: Seq<char>| match #[trigger] tally_of(d, s.push(o), k) { Some(y) => m.insert(n, w).dom().contains(k) && m.insert(n, w)[k] as int == y, None => !m.insert(n, w).dom().contains(k) } by {
                    lemma_tally(d, s, o, k);
                    assert(match tally_of(d, s, k) { Some(x) => m.dom().contains(k) && m[k] as int == x, None => !m.dom().contains(k) });
                }
            }
        },
    }
}

// ------------------------------------------------------------------ flag events
pub open spec fn n_flag() -> Seq<u8> { seq![102u8, 108u8, 97u8, 103u8] }
pub open spec fn captured() -> Seq<&'static str> { seq![" ãáðôõòåä the ÒÅÄ flag!\n", " ãáðôõòåä the ÂÌÕÅ flag!\n"] }
pub open spec fn picked_up() -> Seq<&'static str> { seq![" çïô the ÒÅÄ flag!\n", " çïô the ÂÌÕÅ flag!\n"] }
pub open spec fn returned() -> Seq<&'static str> { seq![" òåôõòîåä the ÒÅÄ flag!\n", " òåôõòîåä the ÂÌÕÅ flag!\n"] }
/// 1 captures, 2 defends, 3 carrier defends against an aggressor, 4 carrier defends, 5 pick-ups, 6 returns, 7 assists
pub open spec fn flag_table(k: int) -> Seq<&'static str> {
    if k == 1 { captured() }
    else if k == 2 { seq![" defends the ÒÅÄ flag\n", " defends the ÂÌÕÅ flag\n"] }
    else if k == 3 { seq![" defends ÒÅÄ's flag carrier against an aggressive enemy\n", " defends ÂÌÕÅ's flag carrier against an aggressive enemy\n"] }
    else if k == 4 { seq![" defends ÒÅÄ's flag carrier\n", " defends ÂÌÕÅ's flag carrier\n"] }
    else if k == 5 { picked_up() }
    else if k == 6 { returned() }
    else { seq![" gets an assist for returning his flag!\n", " gets an assist for fragging the flag carrier!\n"] }
}
pub open spec fn flag_from(t: Seq<char>, k: int) -> Option<(int, Seq<char>)>
    decreases 8 - k
{
    if k < 1 || k > 7 { None } else { match before(t, flag_table(k), 0) { Some(n) => Some((k, n)), None => flag_from(t, k + 1) } }
}
pub open spec fn flag_event(t: Seq<char>) -> Option<(int, Seq<char>)> { flag_from(t, 1) }
pub open spec fn flv(e: crate::qw::flagevent::FlagEvent) -> (int, Seq<char>) {
    match e {
        crate::qw::flagevent::FlagEvent::CapturedFlag { player } => (1, player@),
        crate::qw::flagevent::FlagEvent::DefendsFlag { player } => (2, player@),
        crate::qw::flagevent::FlagEvent::DefendsFlagCarrierVsAggressive { player } => (3, player@),
        crate::qw::flagevent::FlagEvent::DefendsFlagCarrier { player } => (4, player@),
        crate::qw::flagevent::FlagEvent::GotFlag { player } => (5, player@),
        crate::qw::flagevent::FlagEvent::ReturnedFlag { player } => (6, player@),
        crate::qw::flagevent::FlagEvent::ReturnedFlagAssist { player } => (7, player@),
    }
}
pub open spec fn num(e: crate::flags::PlayerFlagEvents, k: int) -> int {
    if k == 1 { e.captures as int } else if k == 2 { e.defends as int } else if k == 3 { e.carrier_defends_vs_aggressive as int }
    else if k == 4 { e.carrier_defends as int } else if k == 5 { e.pickups as int } else if k == 6 { e.returns as int } else { e.carrier_frags as int }
}
/// the second half of an announcement that was printed in two parts
pub open spec fn one_ends(u: Seq<char>, s: Seq<&'static str>) -> bool { ends_with(u, s[0]@) || ends_with(u, s[1]@) }
pub open spec fn is_suffix(t: Seq<u8>) -> bool {
    one_ends(uni(t), captured()) || one_ends(uni(t), picked_up()) || one_ends(uni(t), returned())
}
pub open spec fn suffix_phrase(p: Seq<char>) -> bool {
    p == captured()[0]@ || p == captured()[1]@ || p == picked_up()[0]@ || p == picked_up()[1]@ || p == returned()[0]@ || p == returned()[1]@
}
/// the non-empty high-severity prints found scanning from p
pub open spec fn high_prints(b: Seq<u8>, p: int) -> Seq<Seq<u8>>
    decreases b.len() - p
{
    if p < 0 || p >= b.len() { Seq::empty() }
    else if b[p] != 8 { high_prints(b, p + 1) }
    else {
        match print_at(b, p + 1) {
            Some((pr, q)) => if q <= p || q > b.len() { Seq::empty() } else {
                (if pr.id == 2 && pr.content.len() > 0 { seq![pr.content] } else { Seq::empty() }) + high_prints(b, q)
            },
            None => Seq::empty(),
        }
    }
}
/// announcements made of the pending print and the prints after it
pub open spec fn join(cur: Seq<u8>, s: Seq<Seq<u8>>) -> Seq<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { if cur.len() > 0 { seq![cur] } else { Seq::empty() } }
    else if cur.len() == 0 { join(s[0], s.drop_first()) }
    else if is_suffix(s[0]) { seq![cur + s[0]] + join(Seq::empty(), s.drop_first()) }
    else { seq![cur] + join(s[0], s.drop_first()) }
}
pub open spec fn announcements(d: Seq<u8>, i: int) -> Seq<Seq<u8>>
    decreases d.len() - i
{
    match frame_at(d, i) {
        None => Seq::empty(),
        Some(f) => if f.hdr < 1 || f.body < 0 { Seq::empty() } else {
            let b = body_at(d, i, f);
            (if find_sub(b, n_flag()) is Some { join(Seq::empty(), high_prints(b, 0)) } else { Seq::empty() }) + announcements(d, next_at(i, f))
        },
    }
}
pub proof fn lemma_join_step(cur: Seq<u8>, x: Seq<u8>, s: Seq<Seq<u8>>)
    ensures join(cur, seq![x] + s) == (if cur.len() == 0 { join(x, s) } else if is_suffix(x) { seq![cur + x] + join(Seq::empty(), s) } else { seq![cur] + join(x, s) })
{ assert((seq![x] + s).drop_first() =~= s); assert((seq![x] + s)[0] == x); }
pub proof fn lemma_join_len(cur: Seq<u8>, s: Seq<Seq<u8>>)
    ensures join(cur, s).len() <= s.len() + 1, cur.len() == 0 ==> join(cur, s).len() <= s.len()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_join_len(s[0], s.drop_first());
        lemma_join_len(Seq::empty(), s.drop_first());
    }
}
pub proof fn lemma_high_len(b: Seq<u8>, p: int)
    ensures 0 <= p <= b.len() ==> high_prints(b, p).len() <= b.len() - p
    decreases b.len() - p
{
    if 0 <= p < b.len() {
        if b[p] != 8 { lemma_high_len(b, p + 1); }
        else if let Some((pr, q)) = print_at(b, p + 1) { if p < q <= b.len() { lemma_high_len(b, q); } }
    }
}
pub proof fn lemma_ann_len(d: Seq<u8>, i: int)
    ensures 0 <= i <= d.len() ==> announcements(d, i).len() <= d.len() - i
    decreases d.len() - i
{
    if let Some(f) = frame_at(d, i) {
        let b = body_at(d, i, f);
        lemma_high_len(b, 0);
        lemma_join_len(Seq::empty(), high_prints(b, 0));
        lemma_ann_len(d, next_at(i, f));
    }
}
/// how many of the announcements are of kind k and have the name in front
pub open spec fn events_of(s: Seq<Seq<u8>>, name: Seq<char>, k: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { events_of(s.drop_last(), name, k) + if flag_event(uni(s.last())) == Some((k, name)) { 1int } else { 0int } }
}
pub open spec fn listed(s: Seq<Seq<u8>>, name: Seq<char>) -> bool { exists|k: int| 1 <= k <= 7 && #[trigger] events_of(s, name, k) > 0 }
pub broadcast proof fn lemma_events(s: Seq<Seq<u8>>, x: Seq<u8>, name: Seq<char>, k: int)
    ensures #[trigger] events_of(s.push(x), name, k) == events_of(s, name, k) + if flag_event(uni(x)) == Some((k, name)) { 1int } else { 0int }
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_events_range(s: Seq<Seq<u8>>, name: Seq<char>, k: int)
    ensures 0 <= #[trigger] events_of(s, name, k) <= s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_events_range(s.drop_last(), name, k); } }
pub proof fn lemma_flag_kind(t: Seq<char>, k: int)
    requires 1 <= k
    ensures match flag_from(t, k) { Some((j, n)) => k <= j <= 7, None => true }
    decreases 8 - k
{ if k <= 7 { lemma_flag_kind(t, k + 1); } }
pub open spec fn counted(m: Map<Seq<char>, crate::flags::PlayerFlagEvents>, s: Seq<Seq<u8>>) -> bool {
    forall|n: Seq<char>| counted_for(m, s, n)
}
pub open spec fn counted_for(m: Map<Seq<char>, crate::flags::PlayerFlagEvents>, s: Seq<Seq<u8>>, n: Seq<char>) -> bool {
    &&& forall|k: int| 1 <= k <= 7 ==> #[trigger] events_of(s, n, k) == (if m.dom().contains(n) { num(m[n], k) } else { 0 })
    &&& m.dom().contains(n) <==> listed(s, n)
}
pub open spec fn small(e: crate::flags::PlayerFlagEvents) -> bool {
    e.captures <= max_data() && e.defends <= max_data() && e.carrier_defends_vs_aggressive <= max_data() && e.carrier_defends <= max_data()
        && e.pickups <= max_data() && e.returns <= max_data() && e.carrier_frags <= max_data()
}
pub open spec fn d(k: int, j: int) -> int { if k == j { 1 } else { 0 } }
/// w is n's entry of m with one more of kind k
pub open spec fn bumped(m: Map<Seq<char>, crate::flags::PlayerFlagEvents>, n: Seq<char>, w: crate::flags::PlayerFlagEvents, k: int) -> bool {
    if m.dom().contains(n) {
        let e = m[n];
        w.captures == e.captures + d(k, 1) && w.defends == e.defends + d(k, 2) && w.carrier_defends_vs_aggressive == e.carrier_defends_vs_aggressive + d(k, 3)
            && w.carrier_defends == e.carrier_defends + d(k, 4) && w.pickups == e.pickups + d(k, 5) && w.returns == e.returns + d(k, 6)
            && w.carrier_frags == e.carrier_frags + d(k, 7)
    } else {
        w.captures == d(k, 1) && w.defends == d(k, 2) && w.carrier_defends_vs_aggressive == d(k, 3) && w.carrier_defends == d(k, 4)
            && w.pickups == d(k, 5) && w.returns == d(k, 6) && w.carrier_frags == d(k, 7)
    }
}
pub proof fn lemma_counted(m: Map<Seq<char>, crate::flags::PlayerFlagEvents>, s: Seq<Seq<u8>>, x: Seq<u8>)
    requires counted(m, s), s.len() <= max_data()
    ensures flag_event(uni(x)) is None ==> counted(m, s.push(x)),
        match flag_event(uni(x)) { None => true, Some((k, n)) => {
            &&& 1 <= k <= 7
            &&& m.dom().contains(n) ==> small(m[n])
            &&& forall|w: crate::flags::PlayerFlagEvents| bumped(m, n, w, k) ==> #[trigger] counted(m.insert(n, w), s.push(x)) } },
{
    lemma_flag_kind(uni(x), 1);
    match flag_event(uni(x)) {
        None => {
            assert forall|n: Seq<char>| #[trigger] counted_for(m, s.push(x), n) by {
                assert(counted_for(m, s, n));
                assert forall|k: int| 1 <= k <= 7 implies #[trigger] events_of(s.push(x), n, k) == events_of(s, n, k) by { lemma_events(s, x, n, k); }
                if listed(s, n) { let k = choose|k: int| 1 <= k <= 7 && #[trigger] events_of(s, n, k) > 0; assert(events_of(s.push(x), n, k) > 0); }
                if listed(s.push(x), n) { let k = choose|k: int| 1 <= k <= 7 && #[trigger] events_of(s.push(x), n, k) > 0; assert(events_of(s, n, k) > 0); }
            }
        },
        Some((k, n)) => {
            assert(counted_for(m, s, n));
            if m.dom().contains(n) {
                assert forall|j: int| 1 <= j <= 7 implies 0 <= #[trigger] num(m[n], j) <= max_data() by { lemma_events_range(s, n, j); assert(events_of(s, n, j) == num(m[n], j)); }
                let e = m[n];
                assert(num(e, 1) == e.captures && num(e, 2) == e.defends && num(e, 3) == e.carrier_defends_vs_aggressive && num(e, 4) == e.carrier_defends && num(e, 5) == e.pickups && num(e, 6) == e.returns && num(e, 7) == e.carrier_frags);
            }
            assert forall|w: crate::flags::PlayerFlagEvents| bumped(m, n, w, k) implies #[trigger] counted(m.insert(n, w), s.push(x)) by {
                let v = m.insert(n, w);
                assert forall|a: Seq<char>| #[trigger] counted_for(v, s.push(x), a) by {
                    assert(counted_for(m, s, a));
                    if a == n {
                        assert forall|j: int| 1 <= j <= 7 implies #[trigger] events_of(s.push(x), n, j) == num(w, j) by {
                            lemma_events(s, x, n, j);
                            assert(events_of(s, n, j) == (if m.dom().contains(n) { num(m[n], j) } else { 0 }));
                        }
                        assert(events_of(s.push(x), n, k) > 0) by { lemma_events(s, x, n, k); lemma_events_range(s, n, k); }
                        assert(listed(s.push(x), n));
                    } else {
                        assert forall|j: int| 1 <= j <= 7 implies #[trigger] events_of(s.push(x), a, j) == events_of(s, a, j) by { lemma_events(s, x, a, j); }
                        if listed(s, a) { let j = choose|j: int| 1 <= j <= 7 && #[trigger] events_of(s, a, j) > 0; assert(events_of(s.push(x), a, j) > 0); }
                        if listed(s.push(x), a) { let j = choose|j: int| 1 <= j <= 7 && #[trigger] events_of(s.push(x), a, j) > 0; assert(events_of(s, a, j) > 0); }
                    }
                }
            }
        },
    }
}
pub open spec fn vv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }


/// a number about which nothing is known (places marked for the reachability run)
pub uninterp spec fn mark() -> int;
pub broadcast group group_spec {
    lemma_zero_at, lemma_frame, lemma_dedup_pvs, lemma_rfind_iff, lemma_find_ext, lemma_rfind_ext, lemma_occurs_ext,
    lemma_between_ext, lemma_between, lemma_keep_spec_push, lemma_teams_of_push, lemma_strs_contains,
    lemma_cat_empty, lemma_usum, lemma_total_player, lemma_by_score,
    lemma_events, lemma_events_range, lemma_tally, lemma_ktx_text_len, lemma_plvs_empty, lemma_sums, lemma_worn, lemma_worn_some, lemma_elected, lemma_group, lemma_team_keys, lemma_total_team, lemma_by_name,
}
}

// ------------------------------------------------------------------ what the classification means for an obituary
pub mod phrases {
use vstd::prelude::*;
use crate::shim::*;
use super::*;
verus! {
broadcast use group_shim;
/// phrase q is said in t from position i on; an embedded name may stand where q has its mark
pub open spec fn said(t: Seq<char>, q: Seq<char>, i: int) -> bool {
    match split1(q, "\"??\""@) {
        None => occurs(t, q, i),
        Some((a, b)) => occurs(t, a, i) && exists|e: int| i + a.len() <= e && #[trigger] occurs(t, b, e),
    }
}
pub open spec fn phrases() -> Seq<&'static str> {
    deaths() + own_weapon() + seq![" suicides"] + mate_kills() + killed_by_mate() + killer_first() + victim_first()
}
/// q is said inside the longer phrase p
pub open spec fn part_of(q: Seq<char>, p: Seq<char>) -> bool { q != p && exists|j: int| #[trigger] said(p, q, j) }
/// t says no phrase of the table but number m at position `at` and parts of it
pub open spec fn says_only(t: Seq<char>, m: int, at: int) -> bool {
    forall|k: int, i: int| 0 <= k < phrases().len() && #[trigger] said(t, phrases()[k]@, i)
        ==> (k == m && i == at) || part_of(phrases()[k]@, phrases()[m]@)
}
/// the obituary made of the name x, phrase number m and the name y (ignored for one-name phrases)
pub open spec fn obituary(m: int, x: Seq<char>, y: Seq<char>) -> Seq<char> {
    let p = phrases()[m]@;
    if m < 41 { x + p } else { match split1(p, "\"??\""@) { None => x + p + y, Some((a, b)) => x + a + y + b } }
}
/// the event the phrase table assigns
pub open spec fn assigned(m: int, x: Seq<char>, y: Seq<char>) -> Ev {
    if m < 17 { Ev::Death(x) } else if m < 28 { Ev::Weapon(x) } else if m < 29 { Ev::Suicide(x) } else if m < 35 { Ev::Mate(x) }
    else if m < 41 { Ev::ByMate(x) } else if m < 44 { Ev::Kill(x, y) } else { Ev::Kill(y, x) }
}
pub open spec fn part_found(p: Seq<char>, q: Seq<char>) -> bool {
    match find_sub(q, seq!['"', '?', '?', '"']) {
        None => find_sub(p, q) is Some,
        Some(w) => match find_sub(p, q.subrange(0, w)) {
            None => false,
            Some(i) => find_sub(p.subrange(i + w, p.len() as int), q.subrange(w + 4, q.len() as int)) is Some,
        },
    }
}
pub proof fn lemma_part_found(p: Seq<char>, q: Seq<char>)
    ensures part_of(q, p) ==> part_found(p, q)
{
    reveal_strlit("\"??\"");
    assert("\"??\""@ =~= seq!['"', '?', '?', '"']);
    lemma_find(q, seq!['"', '?', '?', '"']);
    if part_of(q, p) {
        let j = choose|j: int| #[trigger] said(p, q, j);
        match find_sub(q, seq!['"', '?', '?', '"']) {
            None => { lemma_find(p, q); }
            Some(w) => {
                let a = q.subrange(0, w);
                let b = q.subrange(w + 4, q.len() as int);
                lemma_find(p, a);
                let i = find_sub(p, a)->Some_0;
                let e = choose|e: int| j + a.len() <= e && #[trigger] occurs(p, b, e);
                let r = p.subrange(i + w, p.len() as int);
                assert(i <= j);
                assert(r.subrange(e - i - w, e - i - w + b.len()) =~= p.subrange(e, e + b.len()));
                assert(occurs(r, b, e - i - w));
                lemma_find(r, b);
            }
        }
    }
}

/// number of the first phrase tried after phrase m failed
pub open spec fn upto(m: int) -> int { if m < 17 { 17 } else if m < 28 { 28 } else if m < 29 { 29 } else if m < 35 { 35 } else if m < 41 { 41 } else { 72 } }
spec fn spelt(k: int) -> Seq<char> {
    if k < 36 {
     if k < 18 {
      if k < 9 {
       if k < 4 {
        if k < 2 {
         if k < 1 {
          seq![' ', 's', 'l', 'e', 'e', 'p', 's', ' ', 'w', 'i', 't', 'h', ' ', 't', 'h', 'e', ' ', 'f', 'i', 's', 'h', 'e', 's']
         } else {
          seq![' ', 's', 'u', 'c', 'k', 's', ' ', 'i', 't', ' ', 'd', 'o', 'w', 'n']
         }
        } else {
         if k < 3 {
          seq![' ', 'g', 'u', 'l', 'p', 'e', 'd', ' ', 'a', ' ', 'l', 'o', 'a', 'd', ' ', 'o', 'f', ' ', 's', 'l', 'i', 'm', 'e']
         } else {
          seq![' ', 'c', 'a', 'n', '\'', 't', ' ', 'e', 'x', 'i', 's', 't', ' ', 'o', 'n', ' ', 's', 'l', 'i', 'm', 'e', ' ', 'a', 'l', 'o', 'n', 'e']
         }
        }
       } else {
        if k < 6 {
         if k < 5 {
          seq![' ', 'b', 'u', 'r', 's', 't', ' ', 'i', 'n', 't', 'o', ' ', 'f', 'l', 'a', 'm', 'e', 's']
         } else {
          seq![' ', 't', 'u', 'r', 'n', 'e', 'd', ' ', 'i', 'n', 't', 'o', ' ', 'h', 'o', 't', ' ', 's', 'l', 'a', 'g']
         }
        } else {
         if k < 7 {
          seq![' ', 'v', 'i', 's', 'i', 't', 's', ' ', 't', 'h', 'e', ' ', 'V', 'o', 'l', 'c', 'a', 'n', 'o', ' ', 'G', 'o', 'd']
         } else {
          if k < 8 {
           seq![' ', 'c', 'r', 'a', 't', 'e', 'r', 'e', 'd']
          } else {
           seq![' ', 'f', 'e', 'l', 'l', ' ', 't', 'o', ' ', 'h', 'i', 's', ' ', 'd', 'e', 'a', 't', 'h']
          }
         }
        }
       }
      } else {
       if k < 13 {
        if k < 11 {
         if k < 10 {
          seq![' ', 'f', 'e', 'l', 'l', ' ', 't', 'o', ' ', 'h', 'e', 'r', ' ', 'd', 'e', 'a', 't', 'h']
         } else {
          seq![' ', 'b', 'l', 'e', 'w', ' ', 'u', 'p']
         }
        } else {
         if k < 12 {
          seq![' ', 'w', 'a', 's', ' ', 's', 'p', 'i', 'k', 'e', 'd']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'z', 'a', 'p', 'p', 'e', 'd']
         }
        }
       } else {
        if k < 15 {
         if k < 14 {
          seq![' ', 'a', 't', 'e', ' ', 'a', ' ', 'l', 'a', 'v', 'a', 'b', 'a', 'l', 'l']
         } else {
          seq![' ', 'd', 'i', 'e', 'd']
         }
        } else {
         if k < 16 {
          seq![' ', 't', 'r', 'i', 'e', 'd', ' ', 't', 'o', ' ', 'l', 'e', 'a', 'v', 'e']
         } else {
          if k < 17 {
           seq![' ', 'w', 'a', 's', ' ', 's', 'q', 'u', 'i', 's', 'h', 'e', 'd']
          } else {
           seq![' ', 't', 'r', 'i', 'e', 's', ' ', 't', 'o', ' ', 'p', 'u', 't', ' ', 't', 'h', 'e', ' ', 'p', 'i', 'n', ' ', 'b', 'a', 'c', 'k', ' ', 'i', 'n']
          }
         }
        }
       }
      }
     } else {
      if k < 27 {
       if k < 22 {
        if k < 20 {
         if k < 19 {
          seq![' ', 'b', 'e', 'c', 'o', 'm', 'e', 's', ' ', 'b', 'o', 'r', 'e', 'd', ' ', 'w', 'i', 't', 'h', ' ', 'l', 'i', 'f', 'e']
         } else {
          seq![' ', 'd', 'i', 's', 'c', 'o', 'v', 'e', 'r', 's', ' ', 'b', 'l', 'a', 's', 't', ' ', 'r', 'a', 'd', 'i', 'u', 's']
         }
        } else {
         if k < 21 {
          seq![' ', 'e', 'l', 'e', 'c', 't', 'r', 'o', 'c', 'u', 't', 'e', 's', ' ', 'h', 'i', 'm', 's', 'e', 'l', 'f']
         } else {
          seq![' ', 'e', 'l', 'e', 'c', 't', 'r', 'o', 'c', 'u', 't', 'e', 's', ' ', 'h', 'e', 'r', 's', 'e', 'l', 'f']
         }
        }
       } else {
        if k < 24 {
         if k < 23 {
          seq![' ', 'r', 'a', 'i', 'l', 'c', 'u', 't', 'e', 's', ' ', 'h', 'i', 'm', 's', 'e', 'l', 'f']
         } else {
          seq![' ', 'r', 'a', 'i', 'l', 'c', 'u', 't', 'e', 's', ' ', 'h', 'e', 'r', 's', 'e', 'l', 'f']
         }
        } else {
         if k < 25 {
          seq![' ', 'd', 'i', 's', 'c', 'h', 'a', 'r', 'g', 'e', 's', ' ', 'i', 'n', 't', 'o', ' ', 't', 'h', 'e', ' ', 's', 'l', 'i', 'm', 'e']
         } else {
          if k < 26 {
           seq![' ', 'd', 'i', 's', 'c', 'h', 'a', 'r', 'g', 'e', 's', ' ', 'i', 'n', 't', 'o', ' ', 't', 'h', 'e', ' ', 'l', 'a', 'v', 'a']
          } else {
           seq![' ', 'd', 'i', 's', 'c', 'h', 'a', 'r', 'g', 'e', 's', ' ', 'i', 'n', 't', 'o', ' ', 't', 'h', 'e', ' ', 'w', 'a', 't', 'e', 'r']
          }
         }
        }
       }
      } else {
       if k < 31 {
        if k < 29 {
         if k < 28 {
          seq![' ', 'h', 'e', 'a', 't', 's', ' ', 'u', 'p', ' ', 't', 'h', 'e', ' ', 'w', 'a', 't', 'e', 'r']
         } else {
          seq![' ', 's', 'u', 'i', 'c', 'i', 'd', 'e', 's']
         }
        } else {
         if k < 30 {
          seq![' ', 's', 'q', 'u', 'i', 's', 'h', 'e', 'd', ' ', 'a', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         } else {
          seq![' ', 'm', 'o', 'w', 's', ' ', 'd', 'o', 'w', 'n', ' ', 'a', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         }
        }
       } else {
        if k < 33 {
         if k < 32 {
          seq![' ', 'c', 'h', 'e', 'c', 'k', 's', ' ', 'h', 'i', 's', ' ', 'g', 'l', 'a', 's', 's', 'e', 's']
         } else {
          seq![' ', 'c', 'h', 'e', 'c', 'k', 's', ' ', 'h', 'e', 'r', ' ', 'g', 'l', 'a', 's', 's', 'e', 's']
         }
        } else {
         if k < 34 {
          seq![' ', 'g', 'e', 't', 's', ' ', 'a', ' ', 'f', 'r', 'a', 'g', ' ', 'f', 'o', 'r', ' ', 't', 'h', 'e', ' ', 'o', 't', 'h', 'e', 'r', ' ', 't', 'e', 'a', 'm']
         } else {
          if k < 35 {
           seq![' ', 'l', 'o', 's', 'e', 's', ' ', 'a', 'n', 'o', 't', 'h', 'e', 'r', ' ', 'f', 'r', 'i', 'e', 'n', 'd']
          } else {
           seq![' ', 'w', 'a', 's', ' ', 't', 'e', 'l', 'e', 'f', 'r', 'a', 'g', 'g', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'i', 's', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
          }
         }
        }
       }
      }
     }
    } else {
     if k < 54 {
      if k < 45 {
       if k < 40 {
        if k < 38 {
         if k < 37 {
          seq![' ', 'w', 'a', 's', ' ', 't', 'e', 'l', 'e', 'f', 'r', 'a', 'g', 'g', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'e', 'r', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'c', 'r', 'u', 's', 'h', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'i', 's', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         }
        } else {
         if k < 39 {
          seq![' ', 'w', 'a', 's', ' ', 'c', 'r', 'u', 's', 'h', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'e', 'r', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'j', 'u', 'm', 'p', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'i', 's', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         }
        }
       } else {
        if k < 42 {
         if k < 41 {
          seq![' ', 'w', 'a', 's', ' ', 'j', 'u', 'm', 'p', 'e', 'd', ' ', 'b', 'y', ' ', 'h', 'e', 'r', ' ', 't', 'e', 'a', 'm', 'm', 'a', 't', 'e']
         } else {
          seq![' ', 's', 't', 'o', 'm', 'p', 's', ' ']
         }
        } else {
         if k < 43 {
          seq![' ', 's', 'q', 'u', 'i', 's', 'h', 'e', 's', ' ']
         } else {
          if k < 44 {
           seq![' ', 'r', 'i', 'p', 's', ' ', '"', '?', '?', '"', ' ', 'a', ' ', 'n', 'e', 'w', ' ', 'o', 'n', 'e']
          } else {
           seq![' ', 'w', 'a', 's', ' ', 'a', 'x', '-', 'm', 'u', 'r', 'd', 'e', 'r', 'e', 'd', ' ', 'b', 'y', ' ']
          }
         }
        }
       }
      } else {
       if k < 49 {
        if k < 47 {
         if k < 46 {
          seq![' ', 's', 'o', 'f', 't', 'e', 'n', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'f', 'a', 'l', 'l']
         } else {
          seq![' ', 't', 'r', 'i', 'e', 'd', ' ', 't', 'o', ' ', 'c', 'a', 't', 'c', 'h', ' ']
         }
        } else {
         if k < 48 {
          seq![' ', 'w', 'a', 's', ' ', 'c', 'r', 'u', 's', 'h', 'e', 'd', ' ', 'b', 'y', ' ']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'j', 'u', 'm', 'p', 'e', 'd', ' ', 'b', 'y', ' ']
         }
        }
       } else {
        if k < 51 {
         if k < 50 {
          seq![' ', 'c', 'h', 'e', 'w', 'e', 'd', ' ', 'o', 'n', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'b', 'o', 'o', 'm', 's', 't', 'i', 'c', 'k']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'b', 'o', 'd', 'y', ' ', 'p', 'i', 'e', 'r', 'c', 'e', 'd', ' ', 'b', 'y', ' ']
         }
        } else {
         if k < 52 {
          seq![' ', 'w', 'a', 's', ' ', 'n', 'a', 'i', 'l', 'e', 'd', ' ', 'b', 'y', ' ']
         } else {
          if k < 53 {
           seq![' ', 'w', 'a', 's', ' ', 'r', 'a', 'i', 'l', 'e', 'd', ' ', 'b', 'y', ' ']
          } else {
           seq![' ', 'w', 'a', 's', ' ', 't', 'e', 'l', 'e', 'f', 'r', 'a', 'g', 'g', 'e', 'd', ' ', 'b', 'y', ' ']
          }
         }
        }
       }
      }
     } else {
      if k < 63 {
       if k < 58 {
        if k < 56 {
         if k < 55 {
          seq![' ', 'a', 'c', 'c', 'e', 'p', 't', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'd', 'i', 's', 'c', 'h', 'a', 'r', 'g', 'e']
         } else {
          seq![' ', 'd', 'r', 'a', 'i', 'n', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'b', 'a', 't', 't', 'e', 'r', 'i', 'e', 's']
         }
        } else {
         if k < 57 {
          seq![' ', 'w', 'a', 's', ' ', 'l', 'e', 'a', 'd', ' ', 'p', 'o', 'i', 's', 'o', 'n', 'e', 'd', ' ', 'b', 'y', ' ']
         } else {
          seq![' ', 'a', 'c', 'c', 'e', 'p', 't', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 's', 'h', 'a', 'f', 't']
         }
        }
       } else {
        if k < 60 {
         if k < 59 {
          seq![' ', 'a', 't', 'e', ' ', '2', ' ', 'l', 'o', 'a', 'd', 's', ' ', 'o', 'f', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'b', 'u', 'c', 'k', 's', 'h', 'o', 't']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'p', 'e', 'r', 'f', 'o', 'r', 'a', 't', 'e', 'd', ' ', 'b', 'y', ' ']
         }
        } else {
         if k < 61 {
          seq![' ', 'w', 'a', 's', ' ', 'p', 'u', 'n', 'c', 't', 'u', 'r', 'e', 'd', ' ', 'b', 'y', ' ']
         } else {
          if k < 62 {
           seq![' ', 'w', 'a', 's', ' ', 'v', 'e', 'n', 't', 'i', 'l', 'a', 't', 'e', 'd', ' ', 'b', 'y', ' ']
          } else {
           seq![' ', 'a', 't', 'e', ' ', '8', ' ', 'l', 'o', 'a', 'd', 's', ' ', 'o', 'f', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'b', 'u', 'c', 'k', 's', 'h', 'o', 't']
          }
         }
        }
       }
      } else {
       if k < 67 {
        if k < 65 {
         if k < 64 {
          seq![' ', 'g', 'e', 't', 's', ' ', 'a', ' ', 'n', 'a', 't', 'u', 'r', 'a', 'l', ' ', 'd', 'i', 's', 'a', 's', 't', 'e', 'r', ' ', 'f', 'r', 'o', 'm', ' ']
         } else {
          seq![' ', 'r', 'i', 'd', 'e', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'r', 'o', 'c', 'k', 'e', 't']
         }
        } else {
         if k < 66 {
          seq![' ', 'w', 'a', 's', ' ', 'g', 'i', 'b', 'b', 'e', 'd', ' ', 'b', 'y', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'r', 'o', 'c', 'k', 'e', 't']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 's', 't', 'r', 'a', 'w', '-', 'c', 'u', 't', 't', 'e', 'r', 'e', 'd', ' ', 'b', 'y', ' ']
         }
        }
       } else {
        if k < 69 {
         if k < 68 {
          seq![' ', 'e', 'a', 't', 's', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'p', 'i', 'n', 'e', 'a', 'p', 'p', 'l', 'e']
         } else {
          seq![' ', 'w', 'a', 's', ' ', 'g', 'i', 'b', 'b', 'e', 'd', ' ', 'b', 'y', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'g', 'r', 'e', 'n', 'a', 'd', 'e']
         }
        } else {
         if k < 70 {
          seq![' ', 'w', 'a', 's', ' ', 'b', 'r', 'u', 't', 'a', 'l', 'i', 'z', 'e', 'd', ' ', 'b', 'y', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'q', 'u', 'a', 'd', ' ', 'r', 'o', 'c', 'k', 'e', 't']
         } else {
          if k < 71 {
           seq![' ', 'w', 'a', 's', ' ', 's', 'm', 'e', 'a', 'r', 'e', 'd', ' ', 'b', 'y', ' ', '"', '?', '?', '"', '\'', 's', ' ', 'q', 'u', 'a', 'd', ' ', 'r', 'o', 'c', 'k', 'e', 't']
          } else {
           seq![' ', 'w', 'a', 's', ' ', 'h', 'o', 'o', 'k', 'e', 'd', ' ', 'b', 'y', ' ']
          }
         }
        }
       }
      }
     }
    }
}
proof fn lemma_spelt()
    ensures forall|k: int| 0 <= k < 72 ==> (#[trigger] phrases()[k])@ =~= spelt(k)
{
    reveal_strlit(" sleeps with the fishes"); assert(phrases()[0]@ =~= spelt(0));
    reveal_strlit(" sucks it down"); assert(phrases()[1]@ =~= spelt(1));
    reveal_strlit(" gulped a load of slime"); assert(phrases()[2]@ =~= spelt(2));
    reveal_strlit(" can't exist on slime alone"); assert(phrases()[3]@ =~= spelt(3));
    reveal_strlit(" burst into flames"); assert(phrases()[4]@ =~= spelt(4));
    reveal_strlit(" turned into hot slag"); assert(phrases()[5]@ =~= spelt(5));
    reveal_strlit(" visits the Volcano God"); assert(phrases()[6]@ =~= spelt(6));
    reveal_strlit(" cratered"); assert(phrases()[7]@ =~= spelt(7));
    reveal_strlit(" fell to his death"); assert(phrases()[8]@ =~= spelt(8));
    reveal_strlit(" fell to her death"); assert(phrases()[9]@ =~= spelt(9));
    reveal_strlit(" blew up"); assert(phrases()[10]@ =~= spelt(10));
    reveal_strlit(" was spiked"); assert(phrases()[11]@ =~= spelt(11));
    reveal_strlit(" was zapped"); assert(phrases()[12]@ =~= spelt(12));
    reveal_strlit(" ate a lavaball"); assert(phrases()[13]@ =~= spelt(13));
    reveal_strlit(" died"); assert(phrases()[14]@ =~= spelt(14));
    reveal_strlit(" tried to leave"); assert(phrases()[15]@ =~= spelt(15));
    reveal_strlit(" was squished"); assert(phrases()[16]@ =~= spelt(16));
    reveal_strlit(" tries to put the pin back in"); assert(phrases()[17]@ =~= spelt(17));
    reveal_strlit(" becomes bored with life"); assert(phrases()[18]@ =~= spelt(18));
    reveal_strlit(" discovers blast radius"); assert(phrases()[19]@ =~= spelt(19));
    reveal_strlit(" electrocutes himself"); assert(phrases()[20]@ =~= spelt(20));
    reveal_strlit(" electrocutes herself"); assert(phrases()[21]@ =~= spelt(21));
    reveal_strlit(" railcutes himself"); assert(phrases()[22]@ =~= spelt(22));
    reveal_strlit(" railcutes herself"); assert(phrases()[23]@ =~= spelt(23));
    reveal_strlit(" discharges into the slime"); assert(phrases()[24]@ =~= spelt(24));
    reveal_strlit(" discharges into the lava"); assert(phrases()[25]@ =~= spelt(25));
    reveal_strlit(" discharges into the water"); assert(phrases()[26]@ =~= spelt(26));
    reveal_strlit(" heats up the water"); assert(phrases()[27]@ =~= spelt(27));
    reveal_strlit(" suicides"); assert(phrases()[28]@ =~= spelt(28));
    reveal_strlit(" squished a teammate"); assert(phrases()[29]@ =~= spelt(29));
    reveal_strlit(" mows down a teammate"); assert(phrases()[30]@ =~= spelt(30));
    reveal_strlit(" checks his glasses"); assert(phrases()[31]@ =~= spelt(31));
    reveal_strlit(" checks her glasses"); assert(phrases()[32]@ =~= spelt(32));
    reveal_strlit(" gets a frag for the other team"); assert(phrases()[33]@ =~= spelt(33));
    reveal_strlit(" loses another friend"); assert(phrases()[34]@ =~= spelt(34));
    reveal_strlit(" was telefragged by his teammate"); assert(phrases()[35]@ =~= spelt(35));
    reveal_strlit(" was telefragged by her teammate"); assert(phrases()[36]@ =~= spelt(36));
    reveal_strlit(" was crushed by his teammate"); assert(phrases()[37]@ =~= spelt(37));
    reveal_strlit(" was crushed by her teammate"); assert(phrases()[38]@ =~= spelt(38));
    reveal_strlit(" was jumped by his teammate"); assert(phrases()[39]@ =~= spelt(39));
    reveal_strlit(" was jumped by her teammate"); assert(phrases()[40]@ =~= spelt(40));
    reveal_strlit(" stomps "); assert(phrases()[41]@ =~= spelt(41));
    reveal_strlit(" squishes "); assert(phrases()[42]@ =~= spelt(42));
    reveal_strlit(" rips \"??\" a new one"); assert(phrases()[43]@ =~= spelt(43));
    reveal_strlit(" was ax-murdered by "); assert(phrases()[44]@ =~= spelt(44));
    reveal_strlit(" softens \"??\"'s fall"); assert(phrases()[45]@ =~= spelt(45));
    reveal_strlit(" tried to catch "); assert(phrases()[46]@ =~= spelt(46));
    reveal_strlit(" was crushed by "); assert(phrases()[47]@ =~= spelt(47));
    reveal_strlit(" was jumped by "); assert(phrases()[48]@ =~= spelt(48));
    reveal_strlit(" chewed on \"??\"'s boomstick"); assert(phrases()[49]@ =~= spelt(49));
    reveal_strlit(" was body pierced by "); assert(phrases()[50]@ =~= spelt(50));
    reveal_strlit(" was nailed by "); assert(phrases()[51]@ =~= spelt(51));
    reveal_strlit(" was railed by "); assert(phrases()[52]@ =~= spelt(52));
    reveal_strlit(" was telefragged by "); assert(phrases()[53]@ =~= spelt(53));
    reveal_strlit(" accepts \"??\"'s discharge"); assert(phrases()[54]@ =~= spelt(54));
    reveal_strlit(" drains \"??\"'s batteries"); assert(phrases()[55]@ =~= spelt(55));
    reveal_strlit(" was lead poisoned by "); assert(phrases()[56]@ =~= spelt(56));
    reveal_strlit(" accepts \"??\"'s shaft"); assert(phrases()[57]@ =~= spelt(57));
    reveal_strlit(" ate 2 loads of \"??\"'s buckshot"); assert(phrases()[58]@ =~= spelt(58));
    reveal_strlit(" was perforated by "); assert(phrases()[59]@ =~= spelt(59));
    reveal_strlit(" was punctured by "); assert(phrases()[60]@ =~= spelt(60));
    reveal_strlit(" was ventilated by "); assert(phrases()[61]@ =~= spelt(61));
    reveal_strlit(" ate 8 loads of \"??\"'s buckshot"); assert(phrases()[62]@ =~= spelt(62));
    reveal_strlit(" gets a natural disaster from "); assert(phrases()[63]@ =~= spelt(63));
    reveal_strlit(" rides \"??\"'s rocket"); assert(phrases()[64]@ =~= spelt(64));
    reveal_strlit(" was gibbed by \"??\"'s rocket"); assert(phrases()[65]@ =~= spelt(65));
    reveal_strlit(" was straw-cuttered by "); assert(phrases()[66]@ =~= spelt(66));
    reveal_strlit(" eats \"??\"'s pineapple"); assert(phrases()[67]@ =~= spelt(67));
    reveal_strlit(" was gibbed by \"??\"'s grenade"); assert(phrases()[68]@ =~= spelt(68));
    reveal_strlit(" was brutalized by \"??\"'s quad rocket"); assert(phrases()[69]@ =~= spelt(69));
    reveal_strlit(" was smeared by \"??\"'s quad rocket"); assert(phrases()[70]@ =~= spelt(70));
    reveal_strlit(" was hooked by "); assert(phrases()[71]@ =~= spelt(71));
}
spec fn row(m: int, k: int) -> bool
    decreases k
{ if k <= 0 { true } else { (k - 1 == m || !part_found(spelt(m), spelt(k - 1))) && row(m, k - 1) } }
spec fn rows(m: int, from: int) -> bool
    decreases m - from
{ if m <= from { true } else { row(m - 1, upto(m - 1)) && rows(m - 1, from) } }
spec fn plain_phrases(k: int) -> bool
    decreases k
{ if k <= 0 { true } else { find_sub(spelt(k - 1), seq!['"', '?', '?', '"']) is None && plain_phrases(k - 1) } }
proof fn lemma_row(m: int, u: int, k: int)
    requires row(m, u), 0 <= k < u, k != m
    ensures !part_found(spelt(m), spelt(k))
    decreases u
{ if k < u - 1 { lemma_row(m, u - 1, k); } }
proof fn lemma_rows(n: int, from: int, m: int)
    requires rows(n, from), from <= m < n
    ensures row(m, upto(m))
    decreases n - from
{ if m < n - 1 { lemma_rows(n - 1, from, m); } }
proof fn lemma_plain(n: int, k: int)
    requires plain_phrases(n), 0 <= k < n
    ensures find_sub(spelt(k), seq!['"', '?', '?', '"']) is None
    decreases n
{ if k < n - 1 { lemma_plain(n - 1, k); } }
proof fn lemma_unmarked()
    ensures forall|k: int| 0 <= k < 41 ==> find_sub((#[trigger] phrases()[k])@, "\"??\""@) is None
{
    reveal_strlit("\"??\"");
    assert("\"??\""@ =~= seq!['"', '?', '?', '"']);
    lemma_spelt();
    assert(plain_phrases(41)) by (compute_only);
    assert forall|k: int| 0 <= k < 41 implies find_sub((#[trigger] phrases()[k])@, "\"??\""@) is None by { lemma_plain(41, k); }
}
/// no phrase is part of one that is tried with it or after it (so the only parts are those of the killed-by-mate phrases)
proof fn lemma_apart(m: int)
    requires 0 <= m < 72
    ensures forall|k: int| 0 <= k < upto(m) ==> !part_of((#[trigger] phrases()[k])@, phrases()[m]@)
{
    lemma_spelt();
    if 0 <= m < 18 { assert(rows(18, 0)) by (compute_only); lemma_rows(18, 0, m); }
    if 18 <= m < 30 { assert(rows(30, 18)) by (compute_only); lemma_rows(30, 18, m); }
    if 30 <= m < 36 { assert(rows(36, 30)) by (compute_only); lemma_rows(36, 30, m); }
    if 36 <= m < 41 { assert(rows(41, 36)) by (compute_only); lemma_rows(41, 36, m); }
    if 41 <= m < 46 { assert(rows(46, 41)) by (compute_only); lemma_rows(46, 41, m); }
    if 46 <= m < 50 { assert(rows(50, 46)) by (compute_only); lemma_rows(50, 46, m); }
    if 50 <= m < 54 { assert(rows(54, 50)) by (compute_only); lemma_rows(54, 50, m); }
    if 54 <= m < 58 { assert(rows(58, 54)) by (compute_only); lemma_rows(58, 54, m); }
    if 58 <= m < 62 { assert(rows(62, 58)) by (compute_only); lemma_rows(62, 58, m); }
    if 62 <= m < 66 { assert(rows(66, 62)) by (compute_only); lemma_rows(66, 62, m); }
    if 66 <= m < 70 { assert(rows(70, 66)) by (compute_only); lemma_rows(70, 66, m); }
    if 70 <= m < 72 { assert(rows(72, 70)) by (compute_only); lemma_rows(72, 70, m); }
    assert forall|k: int| 0 <= k < upto(m) implies !part_of((#[trigger] phrases()[k])@, phrases()[m]@) by {
        if k != m { lemma_row(m, upto(m), k); lemma_part_found(phrases()[m]@, phrases()[k]@); }
    }
}
proof fn lemma_before_none(t: Seq<char>, tab: Seq<&'static str>, k: int)
    requires 0 <= k, forall|j: int, i: int| 0 <= j < tab.len() ==> !occurs(t, #[trigger] tab[j]@, i) || !#[trigger] is_pos(i)
    ensures before(t, tab, k) is None
    decreases tab.len() - k
{
    if k < tab.len() {
        lemma_find(t, tab[k]@);
        match find_sub(t, tab[k]@) { Some(i) => { assert(is_pos(i)); } None => {} }
        lemma_before_none(t, tab, k + 1);
    }
}
spec fn is_pos(i: int) -> bool { true }
proof fn lemma_before_one(t: Seq<char>, tab: Seq<&'static str>, k: int, m: int, at: int)
    requires 0 <= k <= m < tab.len(), occurs(t, tab[m]@, at),
        forall|j: int, i: int| 0 <= j < tab.len() ==> !occurs(t, #[trigger] tab[j]@, i) || !#[trigger] is_pos(i) || i == at
    ensures before(t, tab, k) == Some(t.subrange(0, at))
    decreases tab.len() - k
{
    lemma_find(t, tab[k]@);
    match find_sub(t, tab[k]@) { Some(i) => { assert(is_pos(i)); } None => { lemma_before_one(t, tab, k + 1, m, at); } }
}
/// a phrase that is not said separates no names, and one that is said once separates the names around it
proof fn lemma_two_names_none(t: Seq<char>, q: Seq<char>)
    requires forall|i: int| !#[trigger] said(t, q, i)
    ensures two_names(t, q) is None
{
    match split1(q, "\"??\""@) {
        None => { lemma_find(t, q); if find_sub(t, q) is Some { assert(said(t, q, find_sub(t, q)->Some_0)); } }
        Some((a, b)) => {
            lemma_find(t, a);
            if find_sub(t, a) is Some {
                let i = find_sub(t, a)->Some_0;
                let r = t.subrange(i + a.len(), t.len() as int);
                lemma_rfind(r, b);
                if rfind_sub(r, b) is Some {
                    let e = rfind_sub(r, b)->Some_0;
                    assert(t.subrange(i + a.len() + e, i + a.len() + e + b.len()) =~= r.subrange(e, e + b.len()));
                    assert(occurs(t, b, i + a.len() + e));
                    assert(said(t, q, i));
                }
            }
        }
    }
}
proof fn lemma_two_names_one(t: Seq<char>, q: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires
        forall|i: int| #[trigger] said(t, q, i) ==> i == x.len(),
        t == match split1(q, "\"??\""@) { None => x + q + y, Some((a, b)) => x + a + y + b },
    ensures two_names(t, q) == Some((x, y)), said(t, q, x.len() as int)
{
    match split1(q, "\"??\""@) {
        None => {
            assert(t.subrange(x.len() as int, (x.len() + q.len()) as int) =~= q);
            assert(said(t, q, x.len() as int));
            lemma_find(t, q);
            assert(said(t, q, find_sub(t, q)->Some_0));
            assert(t.subrange(0, x.len() as int) =~= x);
            assert(t.subrange((x.len() + q.len()) as int, t.len() as int) =~= y);
        }
        Some((a, b)) => {
            let xl = x.len() as int;
            assert(t.subrange(xl, xl + a.len()) =~= a);
            let e = t.len() - b.len();
            assert(t.subrange(e, e + b.len()) =~= b);
            assert(occurs(t, b, e));
            assert(said(t, q, xl));
            lemma_find(t, a);
            let i = find_sub(t, a)->Some_0;
            assert(i <= xl);
            assert(said(t, q, i));
            let r = t.subrange(xl + a.len(), t.len() as int);
            assert(r =~= y + b);
            assert(r.subrange(y.len() as int, (y.len() + b.len()) as int) =~= b);
            assert(occurs(r, b, y.len() as int));
            lemma_rfind(r, b);
            assert(rfind_sub(r, b) == Some(y.len() as int));
            assert(t.subrange(0, xl) =~= x);
            assert(r.subrange(0, y.len() as int) =~= y);
        }
    }
}
pub open spec fn kill_phrase(k: int) -> Seq<char> { if k < 3 { killer_first()[k]@ } else { victim_first()[k - 3]@ } }
proof fn lemma_kill_none(t: Seq<char>, k: int)
    requires 0 <= k, forall|j: int, i: int| 0 <= j < 31 ==> !said(t, #[trigger] kill_phrase(j), i) || !#[trigger] is_pos(i)
    ensures kill_in(t, k) is None
    decreases 31 - k
{
    if k < 31 {
        assert forall|i: int| !#[trigger] said(t, kill_phrase(k), i) by { assert(is_pos(i)); }
        lemma_two_names_none(t, kill_phrase(k));
        lemma_kill_none(t, k + 1);
    }
}
proof fn lemma_kill_one(t: Seq<char>, k: int, m: int, x: Seq<char>, y: Seq<char>)
    requires 0 <= k <= m < 31,
        t == match split1(kill_phrase(m), "\"??\""@) { None => x + kill_phrase(m) + y, Some((a, b)) => x + a + y + b },
        forall|j: int, i: int| 0 <= j < 31 ==> !said(t, #[trigger] kill_phrase(j), i) || !#[trigger] is_pos(i) || (j == m && i == x.len())
    ensures kill_in(t, k) == Some(if m < 3 { Ev::Kill(x, y) } else { Ev::Kill(y, x) })
    decreases 31 - k
{
    if k == m {
        assert forall|i: int| #[trigger] said(t, kill_phrase(k), i) implies i == x.len() by { assert(is_pos(i)); }
        lemma_two_names_one(t, kill_phrase(k), x, y);
    } else {
        assert forall|i: int| !#[trigger] said(t, kill_phrase(k), i) by { assert(is_pos(i)); }
        lemma_two_names_none(t, kill_phrase(k));
        lemma_kill_one(t, k + 1, m, x, y);
    }
}
proof fn lemma_table()
    ensures
        phrases().len() == 72,
        forall|k: int| 0 <= k < 17 ==> deaths()[k] == #[trigger] phrases()[k],
        forall|k: int| 17 <= k < 28 ==> own_weapon()[k - 17] == #[trigger] phrases()[k],
        phrases()[28]@ == " suicides"@,
        forall|k: int| 29 <= k < 35 ==> mate_kills()[k - 29] == #[trigger] phrases()[k],
        forall|k: int| 35 <= k < 41 ==> killed_by_mate()[k - 35] == #[trigger] phrases()[k],
        forall|k: int| 41 <= k < 72 ==> kill_phrase(k - 41) == (#[trigger] phrases()[k])@,
        forall|k: int| 0 <= k < 31 ==> #[trigger] kill_phrase(k) == phrases()[k + 41]@,
{}
/// a text without any phrase is no obituary
pub proof fn lemma_no_obituary(t: Seq<char>)
    requires forall|k: int, i: int| 0 <= k < 72 ==> !#[trigger] said(t, phrases()[k]@, i)
    ensures classify(t) is None
{
    lemma_table();
    lemma_unmarked();
    lemma_find(phrases()[28]@, "\"??\""@);
    assert forall|k: int, i: int| 0 <= k < 41 implies !#[trigger] occurs(t, phrases()[k]@, i) by { assert(!said(t, phrases()[k]@, i)); }
    lemma_tab(t, deaths(), 0, -1, 0);
    lemma_tab(t, own_weapon(), 17, -1, 0);
    lemma_tab(t, mate_kills(), 29, -1, 0);
    lemma_tab(t, killed_by_mate(), 35, -1, 0);
    assert(!ends_with(t, phrases()[28]@));
    lemma_kill_none(t, 0);
}
proof fn lemma_tab(t: Seq<char>, tab: Seq<&'static str>, from: int, m: int, at: int)
    requires
        0 <= from, from + tab.len() <= 41,
        forall|k: int| 0 <= k < tab.len() ==> #[trigger] tab[k] == phrases()[from + k],
        forall|k: int, i: int| from <= k < from + tab.len() && #[trigger] occurs(t, phrases()[k]@, i) ==> k == m && i == at,
    ensures
        !(from <= m < from + tab.len()) ==> before(t, tab, 0) is None,
        from <= m < from + tab.len() && occurs(t, phrases()[m]@, at) ==> before(t, tab, 0) == Some(t.subrange(0, at)),
{
    assert forall|j: int, i: int| 0 <= j < tab.len() && occurs(t, #[trigger] tab[j]@, i) && #[trigger] is_pos(i) implies from + j == m && i == at by {
        assert(tab[j] == phrases()[from + j]);
        assert(occurs(t, phrases()[from + j]@, i));
    }
    if from <= m < from + tab.len() {
        assert(tab[m - from] == phrases()[m]);
        if occurs(t, phrases()[m]@, at) { lemma_before_one(t, tab, 0, m - from, at); }
    } else {
        lemma_before_none(t, tab, 0);
    }
}
/// C06: an obituary made of a name, a phrase and, where the phrase has one, a second name, that says no other phrase of the
/// table (other than a part of the phrase itself), is classified as exactly the event that the table assigns to the phrase
pub proof fn lemma_obituary(m: int, x: Seq<char>, y: Seq<char>)
    requires 0 <= m < 72, says_only(obituary(m, x, y), m, x.len() as int)
    ensures classify(obituary(m, x, y)) == Some(assigned(m, x, y))
{
    let t = obituary(m, x, y);
    let p = phrases()[m]@;
    let at = x.len() as int;
    lemma_table();
    lemma_unmarked();
    lemma_apart(m);
    assert forall|k: int, i: int| 0 <= k < upto(m) && k < 41 && #[trigger] occurs(t, phrases()[k]@, i) implies k == m && i == at by {
        assert(said(t, phrases()[k]@, i));
    }
    if m < 41 { assert(t.subrange(at, at + p.len()) =~= p); assert(occurs(t, p, at)); }
    assert(t.subrange(0, at) =~= x);
    lemma_tab(t, deaths(), 0, m, at);
    if m >= 17 {
        lemma_tab(t, own_weapon(), 17, m, at);
        if m >= 28 {
            if ends_with(t, phrases()[28]@) { assert(occurs(t, phrases()[28]@, t.len() - phrases()[28]@.len())); }
            if m == 28 {
                reveal_strlit(" suicides");
                assert(ends_with(t, p));
                assert(t.subrange(0, t.len() - p.len()) =~= x);
                if ends_with(x, p) {
                    assert(t.subrange(at - p.len(), at) =~= x.subrange(at - p.len(), at));
                    assert(occurs(t, phrases()[28]@, at - p.len()));
                }
                assert(trim_end_matches(t, p) == trim_end_matches(x, p));
                assert(trim_end_matches(x, p) == x);
            }
            if m >= 29 {
                lemma_tab(t, mate_kills(), 29, m, at);
                if m >= 35 {
                    lemma_tab(t, killed_by_mate(), 35, m, at);
                    if m >= 41 {
                        assert forall|j: int, i: int| 0 <= j < 31 && said(t, #[trigger] kill_phrase(j), i) && #[trigger] is_pos(i) implies j == m - 41 && i == at by {
                            assert(said(t, phrases()[j + 41]@, i));
                        }
                        lemma_kill_one(t, 0, m - 41, x, y);
                    }
                }
            }
        }
    }
}

}
}
