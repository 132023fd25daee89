// Contracted stand-ins for std and the crate's dependencies.  Everything marked external_body here
// is ASSUMED (listed in every evidence file); spec functions and lemmas are proved or definitional.
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ------------------------------------------------------------------ errors (content not modelled)
pub struct AError {}
pub struct IoError {}
pub fn v_err() -> (r: AError) { AError {} }
pub fn v_io_err() -> (r: IoError) { IoError {} }
#[verifier::external_body]
pub fn v_conv<E>(e: E) -> (r: AError) { unimplemented!() }
pub fn v_assert(b: bool) requires b { }
pub fn v_bool_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn v_bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn v_bool_xor(a: bool, b: bool) -> (r: bool) ensures r == (a != b) { a != b }
#[verifier::external_body]
pub fn v_unreachable() -> (r: !) requires false { unimplemented!() }

// ------------------------------------------------------------------ generic values
/// Clone::clone of the std types and of derived Clone impls
#[verifier::external_body]
pub fn v_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// derived / std PartialEq
#[verifier::external_body]
pub fn v_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// moving element i out of a consumed vector (each index is visited once)
#[verifier::external_body]
pub fn v_move<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn v_mem_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }

/// two strings / vectors with the same contents are the same value
#[verifier::external_body]
pub broadcast proof fn axiom_string_ext(a: String, b: String)
    ensures (#[trigger] a@) == (#[trigger] b@) ==> a == b
{}
#[verifier::external_body]
pub broadcast proof fn axiom_vec_ext<T>(a: Vec<T>, b: Vec<T>)
    ensures (#[trigger] a@) == (#[trigger] b@) ==> a == b
{}

// ------------------------------------------------------------------ slices and vectors
pub open spec fn occurs<T>(h: Seq<T>, n: Seq<T>, i: int) -> bool {
    0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) =~= n
}
/// smallest index >= i at which n occurs in h
pub open spec fn find_from<T>(h: Seq<T>, n: Seq<T>, i: int) -> Option<int>
    decreases h.len() - i
{
    if i < 0 || i + n.len() > h.len() { None }
    else if occurs(h, n, i) { Some(i) }
    else { find_from(h, n, i + 1) }
}
pub open spec fn find_sub<T>(h: Seq<T>, n: Seq<T>) -> Option<int> { find_from(h, n, 0) }
/// largest index <= i at which n occurs in h
pub open spec fn rfind_from<T>(h: Seq<T>, n: Seq<T>, i: int) -> Option<int>
    decreases i + 1
{
    if i < 0 { None } else if occurs(h, n, i) { Some(i) } else { rfind_from(h, n, i - 1) }
}
pub open spec fn rfind_sub<T>(h: Seq<T>, n: Seq<T>) -> Option<int> { rfind_from(h, n, h.len() - n.len()) }
pub open spec fn oint(o: Option<usize>) -> Option<int> { match o { Some(v) => Some(v as int), None => None } }

pub proof fn lemma_find_from<T>(h: Seq<T>, n: Seq<T>, i: int)
    requires 0 <= i
    ensures
        match find_from(h, n, i) {
            Some(p) => i <= p && occurs(h, n, p) && (forall|j: int| i <= j < p ==> !#[trigger] occurs(h, n, j)),
            None => forall|j: int| i <= j ==> !#[trigger] occurs(h, n, j),
        }
    decreases h.len() - i
{
    if i + n.len() > h.len() {} else if occurs(h, n, i) {} else { lemma_find_from(h, n, i + 1); }
}
pub broadcast proof fn lemma_find<T>(h: Seq<T>, n: Seq<T>)
    ensures
        match #[trigger] find_sub(h, n) {
            Some(p) => 0 <= p && p + n.len() <= h.len() && occurs(h, n, p)
                && (forall|j: int| 0 <= j < p ==> !#[trigger] occurs(h, n, j)),
            None => forall|j: int| !#[trigger] occurs(h, n, j),
        }
{ lemma_find_from(h, n, 0); }
pub proof fn lemma_rfind_from<T>(h: Seq<T>, n: Seq<T>, i: int)
    ensures
        match rfind_from(h, n, i) {
            Some(p) => 0 <= p <= i && occurs(h, n, p) && (forall|j: int| p < j <= i ==> !#[trigger] occurs(h, n, j)),
            None => forall|j: int| j <= i ==> !#[trigger] occurs(h, n, j),
        }
    decreases i + 1
{
    if i < 0 {} else if occurs(h, n, i) {} else { lemma_rfind_from(h, n, i - 1); }
}
pub broadcast proof fn lemma_rfind<T>(h: Seq<T>, n: Seq<T>)
    ensures
        match #[trigger] rfind_sub(h, n) {
            Some(p) => 0 <= p && p + n.len() <= h.len() && occurs(h, n, p)
                && (forall|j: int| p < j ==> !#[trigger] occurs(h, n, j)),
            None => forall|j: int| !#[trigger] occurs(h, n, j),
        }
{ lemma_rfind_from(h, n, h.len() - n.len()); }

#[verifier::external_body]
pub fn v_find(h: &[u8], n: &[u8]) -> (r: Option<usize>) ensures oint(r) == find_sub(h@, n@) { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind(h: &[u8], n: &[u8]) -> (r: Option<usize>) ensures oint(r) == rfind_sub(h@, n@) { unimplemented!() }
#[verifier::external_body]
pub fn v_find_byte(h: &[u8], b: u8) -> (r: Option<usize>) ensures oint(r) == find_sub(h@, seq![b]) { unimplemented!() }
#[verifier::external_body]
pub fn v_rfind_byte(h: &[u8], b: u8) -> (r: Option<usize>) ensures oint(r) == rfind_sub(h@, seq![b]) { unimplemented!() }
#[verifier::external_body]
pub fn v_slice<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_slice_to<T>(s: &[T], b: usize) -> (r: &[T])
    requires b <= s@.len() ensures r@ == s@.subrange(0, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_slice_from<T>(s: &[T], a: usize) -> (r: &[T])
    requires a <= s@.len() ensures r@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_empty_slice<'a, T>() -> (r: &'a [T]) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn v_get<T>(s: &[T], i: usize) -> (r: Option<&T>)
    ensures match r { Some(v) => i < s@.len() && *v == s@[i as int], None => i >= s@.len() } { unimplemented!() }
#[verifier::external_body]
pub fn v_get_range<T>(s: &[T], a: usize, b: usize) -> (r: Option<&[T]>)
    ensures match r { Some(v) => a <= b <= s@.len() && v@ == s@.subrange(a as int, b as int), None => !(a <= b <= s@.len()) } { unimplemented!() }
#[verifier::external_body]
pub fn v_get_from<T>(s: &[T], a: usize) -> (r: Option<&[T]>)
    ensures match r { Some(v) => a <= s@.len() && v@ == s@.subrange(a as int, s@.len() as int), None => a > s@.len() } { unimplemented!() }
#[verifier::external_body]
pub fn v_first<T>(s: &[T]) -> (r: Option<&T>)
    ensures match r { Some(v) => 0 < s@.len() && *v == s@[0], None => s@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn v_last<T>(s: &[T]) -> (r: Option<&T>)
    ensures match r { Some(v) => 0 < s@.len() && *v == s@.last(), None => s@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn v_split_at<T>(s: &[T], a: usize) -> (r: (&[T], &[T]))
    requires a <= s@.len()
    ensures r.0@ == s@.subrange(0, a as int), r.1@ == s@.subrange(a as int, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_prefix<'a, T>(s: &'a [T], p: &[T]) -> (r: Option<&'a [T]>)
    ensures match r { Some(v) => occurs(s@, p@, 0) && v@ == s@.subrange(p@.len() as int, s@.len() as int), None => !occurs(s@, p@, 0) } { unimplemented!() }
#[verifier::external_body]
pub fn v_strip_suffix<'a, T>(s: &'a [T], p: &[T]) -> (r: Option<&'a [T]>)
    ensures match r { Some(v) => occurs(s@, p@, s@.len() - p@.len()) && v@ == s@.subrange(0, s@.len() - p@.len()), None => !occurs(s@, p@, s@.len() - p@.len()) } { unimplemented!() }
#[verifier::external_body]
pub fn v_split_off<T>(v: &mut Vec<T>, a: usize) -> (r: Vec<T>)
    requires a <= old(v)@.len()
    ensures final(v)@ == old(v)@.subrange(0, a as int), r@ == old(v)@.subrange(a as int, old(v)@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_starts_with<T>(s: &[T], p: &[T]) -> (r: bool) ensures r == occurs(s@, p@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn v_ends_with<T>(s: &[T], p: &[T]) -> (r: bool) ensures r == occurs(s@, p@, s@.len() - p@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn v_eq_slice<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_vec<T>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn v_extend<T>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_append<T>(v: &mut Vec<T>, s: &mut Vec<T>)
    ensures final(v)@ == old(v)@ + old(s)@, final(s)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn v_contains<T>(s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x) { unimplemented!() }
#[verifier::external_body]
pub fn v_contains_str(s: &[&str], x: &&str) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i])@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn v_contains_string(s: &[String], x: &String) -> (r: bool)
    ensures r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i])@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn v_chain<T>(a: &[T], b: &[T]) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn cat_vecs<T>(s: Seq<Vec<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { cat_vecs(s.drop_last()) + s.last()@ }
}
#[verifier::external_body]
pub fn v_concat<T>(s: &[Vec<T>]) -> (r: Vec<T>) ensures r@ == cat_vecs(s@) { unimplemented!() }
pub broadcast proof fn lemma_cat2<T>(s: Seq<Vec<T>>)
    requires s.len() == 2
    ensures #[trigger] cat_vecs(s) =~= s[0]@ + s[1]@
{
    let d = s.drop_last();
    assert(cat_vecs(d.drop_last()) =~= Seq::<T>::empty());
    assert(cat_vecs(d) =~= d[0]@);
    assert(cat_vecs(s) == cat_vecs(d) + s[1]@);
}
/// Vec::dedup: an element equal to its predecessor is dropped
pub open spec fn dedup<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.len() >= 2 && s[s.len() - 2] == s.last() { dedup(s.drop_last()) }
    else { dedup(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
pub fn v_dedup<T>(v: &mut Vec<T>) ensures final(v)@ == dedup(old(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn v_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == le2(b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as int == le4(b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as int == b@[0] * 256 + b@[1] { unimplemented!() }
#[verifier::external_body]
pub fn v_u32_from_be_bytes(b: [u8; 4]) -> (r: u32)
    ensures r as int == b@[0] * 16777216 + b@[1] * 65536 + b@[2] * 256 + b@[3] { unimplemented!() }
pub open spec fn le2(b: Seq<u8>) -> int { b[0] + 256 * b[1] }
pub open spec fn le4(b: Seq<u8>) -> int { b[0] + 256 * b[1] + 65536 * b[2] + 16777216 * b[3] }

// ------------------------------------------------------------------ ordering and sorting
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum Ordering { Less, Equal, Greater }
pub open spec fn ord_int(o: Ordering) -> int {
    match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }
}
pub open spec fn cmp_int(a: int, b: int) -> int { if a < b { -1 } else if a == b { 0 } else { 1 } }
/// lexicographic by code point (equal to the byte order of UTF-8)
pub open spec fn cmp_chars(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] != b[0] { cmp_int(a[0] as int, b[0] as int) }
    else { cmp_chars(a.drop_first(), b.drop_first()) }
}
pub fn v_cmp_int(a: i128, b: i128) -> (r: Ordering) ensures ord_int(r) == cmp_int(a as int, b as int)
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body]
pub fn v_cmp_str(a: &str, b: &str) -> (r: Ordering) ensures ord_int(r) == cmp_chars(a@, b@) { unimplemented!() }
pub fn v_then(a: Ordering, b: Ordering) -> (r: Ordering)
    ensures ord_int(r) == (if ord_int(a) != 0 { ord_int(a) } else { ord_int(b) })
{ match a { Ordering::Equal => b, x => x } }
pub fn v_reverse(a: Ordering) -> (r: Ordering) ensures ord_int(r) == -ord_int(a)
{ match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }

pub proof fn lemma_cmp_chars_anti(a: Seq<char>, b: Seq<char>)
    ensures cmp_chars(a, b) == -cmp_chars(b, a), -1 <= cmp_chars(a, b) <= 1, cmp_chars(a, b) == 0 <==> a =~= b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_cmp_chars_anti(a.drop_first(), b.drop_first());
        if cmp_chars(a, b) == 0 {
            assert(a.drop_first() =~= b.drop_first());
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                if i > 0 { assert(a.drop_first()[i - 1] == b.drop_first()[i - 1]); }
            }
            assert(a =~= b);
        }
    }
}
pub proof fn lemma_cmp_chars_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires cmp_chars(a, b) <= 0, cmp_chars(b, c) <= 0
    ensures cmp_chars(a, c) <= 0, cmp_chars(a, b) < 0 || cmp_chars(b, c) < 0 ==> cmp_chars(a, c) < 0
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_cmp_chars_trans(a.drop_first(), b.drop_first(), c.drop_first());
    }
}

pub open spec fn total_preorder<T>(cmp: spec_fn(T, T) -> int) -> bool {
    &&& forall|a: T, b: T| #[trigger] cmp(a, b) <= 0 || cmp(b, a) <= 0
    &&& forall|a: T, b: T| (#[trigger] cmp(a, b) < 0) == (cmp(b, a) > 0)
    &&& forall|a: T, b: T, c: T| #[trigger] cmp(a, b) <= 0 && #[trigger] cmp(b, c) <= 0 ==> cmp(a, c) <= 0
}
/// insertion behind every element that is not greater: the stable sort
pub open spec fn ins<T>(s: Seq<T>, x: T, cmp: spec_fn(T, T) -> int) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { seq![x] }
    else if cmp(s.last(), x) <= 0 { s.push(x) }
    else { ins(s.drop_last(), x, cmp).push(s.last()) }
}
pub open spec fn isort<T>(s: Seq<T>, cmp: spec_fn(T, T) -> int) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else { ins(isort(s.drop_last(), cmp), s.last(), cmp) }
}
pub open spec fn sorted_by<T>(s: Seq<T>, cmp: spec_fn(T, T) -> int) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] cmp(s[i], s[j]) <= 0
}
pub proof fn lemma_ins<T>(s: Seq<T>, x: T, cmp: spec_fn(T, T) -> int)
    requires total_preorder(cmp), sorted_by(s, cmp)
    ensures sorted_by(ins(s, x, cmp), cmp), ins(s, x, cmp).to_multiset() == s.to_multiset().insert(x),
        ins(s, x, cmp).len() == s.len() + 1
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() == 0 {
        assert(Seq::<T>::empty().push(x) =~= seq![x]);
        assert(s =~= Seq::<T>::empty());
    } else if cmp(s.last(), x) <= 0 {
        let r = s.push(x);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] cmp(r[i], r[j]) <= 0 by {
            if j == s.len() { if i < s.len() - 1 { assert(cmp(s[i], s.last()) <= 0); } }
        }
    } else {
        let d = s.drop_last();
        assert(sorted_by(d, cmp)) by {
            assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] cmp(d[i], d[j]) <= 0 by { assert(cmp(s[i], s[j]) <= 0); }
        }
        lemma_ins(d, x, cmp);
        let q = ins(d, x, cmp);
        let r = q.push(s.last());
        assert(d.push(s.last()) =~= s);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] cmp(r[i], r[j]) <= 0 by {
            if j == q.len() {
                assert(q.to_multiset().count(q[i]) > 0) by { assert(q.contains(q[i])); }
                if q[i] != x {
                    assert(d.to_multiset().count(q[i]) > 0);
                    assert(d.contains(q[i]));
                    let k = choose|k: int| 0 <= k < d.len() && d[k] == q[i];
                    assert(cmp(s[k], s[s.len() - 1]) <= 0);
                }
            } else { assert(cmp(q[i], q[j]) <= 0); }
        }
        assert(r.to_multiset() == q.to_multiset().insert(s.last()));
        assert(s.to_multiset() == d.to_multiset().insert(s.last()));
        assert(r.to_multiset() =~= s.to_multiset().insert(x));
    }
}
pub proof fn lemma_isort<T>(s: Seq<T>, cmp: spec_fn(T, T) -> int)
    requires total_preorder(cmp)
    ensures sorted_by(isort(s, cmp), cmp), isort(s, cmp).to_multiset() == s.to_multiset(), isort(s, cmp).len() == s.len()
    decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 {
        lemma_isort(s.drop_last(), cmp);
        lemma_ins(isort(s.drop_last(), cmp), s.last(), cmp);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_ins_map<T, U>(s: Seq<T>, x: T, f: spec_fn(T) -> U, c: spec_fn(T, T) -> int, e: spec_fn(U, U) -> int)
    requires forall|a: T, b: T| #[trigger] c(a, b) == e(f(a), f(b))
    ensures ins(s, x, c).map_values(f) =~= ins(s.map_values(f), f(x), e)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ins_map(s.drop_last(), x, f, c, e);
        assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f));
        assert(c(s.last(), x) == e(f(s.last()), f(x)));
    }
}
pub proof fn lemma_isort_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U, c: spec_fn(T, T) -> int, e: spec_fn(U, U) -> int)
    requires forall|a: T, b: T| #[trigger] c(a, b) == e(f(a), f(b))
    ensures isort(s, c).map_values(f) =~= isort(s.map_values(f), e)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_isort_map(s.drop_last(), f, c, e);
        lemma_ins_map(isort(s.drop_last(), c), s.last(), f, c, e);
        assert(s.map_values(f).drop_last() =~= s.drop_last().map_values(f));
    }
}
/// slice::sort_by (stable); std panics or misorders when the comparator is not a total preorder
#[verifier::external_body]
pub fn v_sort_by<T>(v: &mut Vec<T>, cmp: Ghost<spec_fn(T, T) -> int>)
    requires total_preorder(cmp@)
    ensures final(v)@ == isort(old(v)@, cmp@), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn v_sort_unknown<T>(v: &mut Vec<T>) ensures final(v)@.len() == old(v)@.len() { unimplemented!() }

// ------------------------------------------------------------------ strings
/// bytes of the UTF-8 encoding of one character
pub open spec fn clen(c: char) -> int {
    let u = c as int;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
/// byte offset of character i
pub open spec fn boff(s: Seq<char>, i: int) -> int
    decreases i
{
    if i <= 0 { 0 } else { boff(s, i - 1) + clen(s[i - 1]) }
}
pub open spec fn is_boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] boff(s, i) == b }
/// character index of byte offset b
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|i: int| 0 <= i <= s.len() && #[trigger] boff(s, i) == b }
pub proof fn lemma_boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures boff(s, i) + (j - i) <= boff(s, j), boff(s, i) >= i
    decreases j
{
    if i < j { lemma_boff_mono(s, i, j - 1); } else if i > 0 { lemma_boff_mono(s, i - 1, i - 1); }
}
pub broadcast proof fn lemma_cidx(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures is_boundary(s, #[trigger] boff(s, i)), cidx(s, boff(s, i)) == i, boff(s, i) <= boff(s, s.len() as int), boff(s, i) >= i
{
    let k = cidx(s, boff(s, i));
    assert(0 <= k <= s.len() && boff(s, k) == boff(s, i));
    if k < i { lemma_boff_mono(s, k, i); } else { lemma_boff_mono(s, i, k); }
    lemma_boff_mono(s, i, s.len() as int);
}
pub open spec fn ofoff(s: Seq<char>, o: Option<int>) -> Option<int> { match o { Some(i) => Some(boff(s, i)), None => None } }

pub open spec fn is_ws(c: char) -> bool {
    let u = c as int;
    (9 <= u <= 13) || u == 32 || u == 0x85 || u == 0xA0 || u == 0x1680 || (0x2000 <= u <= 0x200A)
        || u == 0x2028 || u == 0x2029 || u == 0x202F || u == 0x205F || u == 0x3000
}
pub open spec fn trim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) { trim_end(s.drop_last()) } else { s }
}
pub open spec fn trim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) { trim_start(s.drop_first()) } else { s }
}
pub open spec fn ends_with(s: Seq<char>, p: Seq<char>) -> bool { occurs(s, p, s.len() - p.len()) }
pub open spec fn trim_end_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() > 0 && ends_with(s, p) { trim_end_matches(s.subrange(0, s.len() - p.len()), p) } else { s }
}
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub open spec fn repl_char(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.last() == c { repl_char(s.drop_last(), c, to) + to }
    else { repl_char(s.drop_last(), c, to).push(s.last()) }
}
pub open spec fn trim_start_matches(s: Seq<char>, p: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() > 0 && occurs(s, p, 0) { trim_start_matches(s.subrange(p.len() as int, s.len() as int), p) } else { s }
}
/// every occurrence of n, from the left and not overlapping, becomes w
pub open spec fn repl_str(s: Seq<char>, n: Seq<char>, w: Seq<char>) -> Seq<char>
    decreases s.len()
{
    match find_sub(s, n) {
        Some(i) => if n.len() > 0 && 0 <= i && i + n.len() <= s.len() { s.subrange(0, i) + w + repl_str(s.subrange(i + n.len(), s.len() as int), n, w) } else { s },
        None => s,
    }
}
/// the parts between the separators
pub open spec fn split_at_char(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    match find_sub(s, seq![c]) {
        Some(i) => if 0 <= i < s.len() { seq![s.subrange(0, i)] + split_at_char(s.subrange(i + 1, s.len() as int), c) } else { seq![s] },
        None => seq![s],
    }
}
pub open spec fn sviews(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub open spec fn pad_right(s: Seq<char>, c: char, n: int) -> Seq<char>
    decreases n - s.len()
{
    if s.len() >= n { s } else { pad_right(s.push(c), c, n) }
}
pub open spec fn digit(c: char) -> bool { '0' as int <= c as int <= '9' as int }
pub open spec fn digits_val(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// i32::from_str: optional sign, at least one digit, value in range
pub open spec fn parse_int(s: Seq<char>, lo: int, hi: int) -> Option<int> {
    let neg = s.len() > 0 && s[0] == '-';
    let b = if s.len() > 0 && (s[0] == '-' || s[0] == '+') { s.drop_first() } else { s };
    let v = if neg { -digits_val(b) } else { digits_val(b) };
    if b.len() > 0 && all_digits(b) && lo <= v <= hi { Some(v) } else { None }
}
/// the UTF-8 encoding of one character
#[verifier::opaque]
pub open spec fn encc(c: char) -> Seq<u8> {
    let u = c as int;
    if u < 0x80 { seq![c as u8] }
    else if u < 0x800 { seq![(0xC0 + u / 64) as u8, (0x80 + u % 64) as u8] }
    else if u < 0x10000 { seq![(0xE0 + u / 4096) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
    else { seq![(0xF0 + u / 262144) as u8, (0x80 + u / 4096 % 64) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
}
/// as long as it says, and its bytes below 128 are exactly the characters below 128
pub broadcast proof fn lemma_encc(c: char)
    ensures (#[trigger] encc(c)).len() == clen(c),
        (c as int) < 0x80 ==> encc(c) == seq![c as u8],
        (c as int) >= 0x80 ==> forall|i: int| 0 <= i < encc(c).len() ==> #[trigger] encc(c)[i] >= 0x80,
{
    reveal(encc);
    assert(c as int <= 0x10FFFF);
}
pub open spec fn enc(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { enc(s.drop_last()) + encc(s.last()) }
}
/// the text whose encoding these bytes are
#[verifier::opaque]
pub open spec fn dec(b: Seq<u8>) -> Option<Seq<char>> {
    if exists|s: Seq<char>| #[trigger] enc(s) == b { Some(choose|s: Seq<char>| #[trigger] enc(s) == b) } else { None }
}
/// decoding inverts encoding
pub broadcast proof fn lemma_dec(b: Seq<u8>)
    ensures match #[trigger] dec(b) { Some(s) => enc(s) == b, None => true }
{ reveal(dec); }
pub proof fn lemma_boff_ext(s: Seq<char>, t: Seq<char>, i: int)
    requires 0 <= i <= s.len(), i <= t.len(), forall|k: int| 0 <= k < i ==> s[k] == t[k]
    ensures boff(s, i) == boff(t, i)
    decreases i
{ if i > 0 { lemma_boff_ext(s, t, i - 1); } }
/// a byte below 128 is a character of its own: both its sides are character boundaries
pub proof fn lemma_ascii_boundary(s: Seq<char>, b: int)
    requires 0 <= b < enc(s).len(), enc(s)[b] < 0x80
    ensures is_boundary(s, b), is_boundary(s, b + 1), boff(s, s.len() as int) == enc(s).len()
    decreases s.len()
{
    lemma_enc_len(s);
    let d = s.drop_last();
    lemma_enc_len(d);
    lemma_encc(s.last());
    lemma_boff_ext(s, d, d.len() as int);
    if b < enc(d).len() {
        lemma_ascii_boundary(d, b);
        let i = cidx(d, b);
        lemma_boff_ext(s, d, i);
        assert(boff(s, i) == b);
        let j = cidx(d, b + 1);
        lemma_boff_ext(s, d, j);
        assert(boff(s, j) == b + 1);
    } else {
        assert(enc(s)[b] == encc(s.last())[b - enc(d).len()]);
        assert(boff(s, d.len() as int) == b);
        assert(boff(s, s.len() as int) == b + 1);
    }
}
pub proof fn lemma_dec_len(b: Seq<u8>)
    ensures dec(b) is Some ==> dec(b)->Some_0.len() <= b.len()
{
    lemma_dec(b);
    if let Some(s) = dec(b) { lemma_enc_len(s); lemma_boff_mono(s, 0, s.len() as int); }
}
pub proof fn lemma_enc_len(s: Seq<char>)
    ensures enc(s).len() == boff(s, s.len() as int)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_enc_len(s.drop_last());
        lemma_encc(s.last());
        lemma_boff_ext(s, s.drop_last(), s.len() - 1);
    }
}

#[verifier::external_body]
pub fn v_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn v_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_str_cat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn v_push_str(a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn v_push_char(a: &mut String, b: char) ensures final(a)@ == old(a)@.push(b) { unimplemented!() }
#[verifier::external_body]
pub fn v_char_to_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
/// decimal, without a sign for what is not negative
pub open spec fn dec_digits(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![('0' as u8 + n as u8) as char] } else { dec_digits(n / 10).push(('0' as u8 + (n % 10) as u8) as char) }
}
pub open spec fn int_text(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec_digits((-n) as nat) } else { dec_digits(n as nat) } }
#[verifier::external_body]
pub fn v_int_to_string(n: i128) -> (r: String) ensures r@ == int_text(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_pad_right(s: &str, c: char, n: usize) -> (r: String) ensures r@ == pad_right(s@, c, n as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_eq_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_opt_as_str(a: &Option<String>) -> (r: Option<&str>)
    ensures match r { Some(s) => *a is Some && s@ == a->Some_0@, None => *a is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_len(s: &str) -> (r: usize) ensures r == boff(s@, s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_bytes(s: &str) -> (r: &[u8]) ensures r@ == enc(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn v_first_char(s: &str) -> (r: Option<char>)
    ensures match r { Some(c) => s@.len() > 0 && c == s@[0], None => s@.len() == 0 } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_slice(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b, is_boundary(s@, a as int), is_boundary(s@, b as int)
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_slice_to(s: &str, b: usize) -> (r: &str)
    requires is_boundary(s@, b as int) ensures r@ == s@.subrange(0, cidx(s@, b as int)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_slice_from(s: &str, a: usize) -> (r: &str)
    requires is_boundary(s@, a as int) ensures r@ == s@.subrange(cidx(s@, a as int), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_split_at(s: &str, a: usize) -> (r: (&str, &str))
    requires is_boundary(s@, a as int)
    ensures r.0@ == s@.subrange(0, cidx(s@, a as int)), r.1@ == s@.subrange(cidx(s@, a as int), s@.len() as int) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_is_boundary(s: &str, a: usize) -> (r: bool) ensures r == is_boundary(s@, a as int) { unimplemented!() }
pub open spec fn ascii_lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32u8) as u8 as char } else { c } }
pub open spec fn ascii_upper(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u8) - 32u8) as u8 as char } else { c } }
#[verifier::external_body]
pub fn v_str_to_ascii_lowercase(s: &str) -> (r: String) ensures r@ == s@.map_values(|c: char| ascii_lower(c)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == s@.map_values(|c: char| ascii_upper(c)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_eq_ignore_ascii_case(s: &str, t: &str) -> (r: bool)
    ensures r == (s@.map_values(|c: char| ascii_lower(c)) =~= t@.map_values(|c: char| ascii_lower(c))) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_get(s: &str, a: usize, b: usize) -> (r: Option<&str>)
    ensures match r {
        Some(v) => a <= b && is_boundary(s@, a as int) && is_boundary(s@, b as int) && v@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)),
        None => !(a <= b && is_boundary(s@, a as int) && is_boundary(s@, b as int)) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_get_to(s: &str, b: usize) -> (r: Option<&str>)
    ensures match r { Some(v) => is_boundary(s@, b as int) && v@ == s@.subrange(0, cidx(s@, b as int)), None => !is_boundary(s@, b as int) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_get_from(s: &str, a: usize) -> (r: Option<&str>)
    ensures match r { Some(v) => is_boundary(s@, a as int) && v@ == s@.subrange(cidx(s@, a as int), s@.len() as int), None => !is_boundary(s@, a as int) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_find(s: &str, n: &str) -> (r: Option<usize>) ensures oint(r) == ofoff(s@, find_sub(s@, n@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_rfind(s: &str, n: &str) -> (r: Option<usize>) ensures oint(r) == ofoff(s@, rfind_sub(s@, n@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_find_char(s: &str, n: char) -> (r: Option<usize>) ensures oint(r) == ofoff(s@, find_sub(s@, seq![n])) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_rfind_char(s: &str, n: char) -> (r: Option<usize>) ensures oint(r) == ofoff(s@, rfind_sub(s@, seq![n])) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_contains(s: &str, n: &str) -> (r: bool) ensures r == (find_sub(s@, n@) is Some) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_contains_char(s: &str, n: char) -> (r: bool) ensures r == s@.contains(n) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_starts_with(s: &str, n: &str) -> (r: bool) ensures r == occurs(s@, n@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_starts_with_char(s: &str, n: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == n) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_ends_with(s: &str, n: &str) -> (r: bool) ensures r == ends_with(s@, n@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_ends_with_char(s: &str, n: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == n) { unimplemented!() }
pub open spec fn split1(s: Seq<char>, n: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match find_sub(s, n) { Some(i) => Some((s.subrange(0, i), s.subrange(i + n.len(), s.len() as int))), None => None }
}
pub open spec fn rsplit1(s: Seq<char>, n: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match rfind_sub(s, n) { Some(i) => Some((s.subrange(0, i), s.subrange(i + n.len(), s.len() as int))), None => None }
}
pub open spec fn v2(o: Option<(&str, &str)>) -> Option<(Seq<char>, Seq<char>)> {
    match o { Some((a, b)) => Some((a@, b@)), None => None }
}
#[verifier::external_body]
pub fn v_str_split_once<'a>(s: &'a str, n: &str) -> (r: Option<(&'a str, &'a str)>) ensures v2(r) == split1(s@, n@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_rsplit_once<'a>(s: &'a str, n: &str) -> (r: Option<(&'a str, &'a str)>) ensures v2(r) == rsplit1(s@, n@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_split_once_char(s: &str, n: char) -> (r: Option<(&str, &str)>) ensures v2(r) == split1(s@, seq![n]) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_rsplit_once_char(s: &str, n: char) -> (r: Option<(&str, &str)>) ensures v2(r) == rsplit1(s@, seq![n]) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_end(s: &str) -> (r: &str) ensures r@ == trim_end(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_start(s: &str) -> (r: &str) ensures r@ == trim_start(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim(s: &str) -> (r: &str) ensures r@ == trim_start(trim_end(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_end_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == trim_end_matches(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_end_matches_char(s: &str, p: char) -> (r: &str) ensures r@ == trim_end_matches(s@, seq![p]) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_start_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == trim_start_matches(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_start_matches_char(s: &str, p: char) -> (r: &str) ensures r@ == trim_start_matches(s@, seq![p]) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_trim_matches_char(s: &str, p: char) -> (r: &str) ensures r@ == trim_start_matches(trim_end_matches(s@, seq![p]), seq![p]) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_replace(s: &str, n: &str, to: &str) -> (r: String) requires n@.len() > 0 ensures r@ == repl_str(s@, n@, to@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_split_char(s: &str, c: char) -> (r: Vec<&str>) ensures sviews(r@) == split_at_char(s@, c) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_strip_suffix_char(s: &str, p: char) -> (r: Option<&str>)
    ensures match r { Some(v) => ends_with(s@, seq![p]) && v@ == s@.subrange(0, s@.len() - 1), None => !ends_with(s@, seq![p]) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(v) => ends_with(s@, p@) && v@ == s@.subrange(0, s@.len() - p@.len()), None => !ends_with(s@, p@) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r { Some(v) => occurs(s@, p@, 0) && v@ == s@.subrange(p@.len() as int, s@.len() as int), None => !occurs(s@, p@, 0) } { unimplemented!() }
#[verifier::external_body]
pub fn v_str_to_lowercase(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_to_uppercase(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
#[verifier::external_body]
pub fn v_str_replace_char(s: &str, c: char, to: &str) -> (r: String) ensures r@ == repl_char(s@, c, to@) { unimplemented!() }
pub struct ParseErr {}
pub fn v_int_err() -> (r: ParseErr) { ParseErr {} }
#[verifier::external_body]
pub fn v_str_parse_i32(s: &str) -> (r: Result<i32, ParseErr>)
    ensures match r { Ok(v) => parse_int(s@, i32::MIN as int, i32::MAX as int) == Some(v as int), Err(_) => parse_int(s@, i32::MIN as int, i32::MAX as int) is None } { unimplemented!() }
pub uninterp spec fn parse_f64(s: Seq<char>) -> Option<f64>;
#[verifier::external_body]
pub fn v_str_parse_f64(s: &str) -> (r: Result<f64, ParseErr>)
    ensures match r { Ok(v) => parse_f64(s@) == Some(v), Err(_) => parse_f64(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_from_utf8(b: &[u8]) -> (r: Result<&str, ParseErr>)
    ensures match r { Ok(s) => dec(b@) == Some(s@), Err(_) => dec(b@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_string_from_utf8(b: Vec<u8>) -> (r: Result<String, ParseErr>)
    ensures match r { Ok(s) => dec(b@) == Some(s@), Err(_) => dec(b@) is None } { unimplemented!() }

// ------------------------------------------------------------------ iterators kept in a variable
/// what an iterator still has to yield
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { m: core::marker::PhantomData<T> }
impl<T> View for VIter<T> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
#[verifier::external_body]
pub fn v_iter<T>(v: Vec<T>) -> (r: VIter<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn v_next<T>(i: &mut VIter<T>) -> (r: Option<T>)
    ensures match r { Some(x) => old(i)@.len() > 0 && x == old(i)@[0] && final(i)@ == old(i)@.drop_first(), None => old(i)@.len() == 0 && final(i)@ == old(i)@ } { unimplemented!() }
#[verifier::external_body]
pub fn v_iter_rest<T>(i: VIter<T>) -> (r: Vec<T>) ensures r@ == i@ { unimplemented!() }

// ------------------------------------------------------------------ quake_text
/// bytestr::to_unicode: every byte is the character of the same code
pub open spec fn uni(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
#[verifier::external_body]
pub fn v_to_unicode(b: &[u8]) -> (r: String) ensures r@ == uni(b@) { unimplemented!() }
/// bytestr::to_utf8: colour bit dropped, special glyphs mapped
pub open spec fn qchar(b: u8) -> char {
    let c = b & 127u8;
    if c == 16 { '[' } else if c == 17 { ']' } else if 18 <= c <= 27 { ((c + 30) as u8) as char }
    else if 32 <= c <= 126 { c as char } else if c == 0 || c == 5 || c == 14 || c == 15 || c == 28 { '•' } else { ' ' }
}
pub open spec fn qtext(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| qchar(b[i])) }
#[verifier::external_body]
pub fn v_to_utf8(b: &[u8]) -> (r: String) ensures r@ == qtext(b@) { unimplemented!() }
pub uninterp spec fn ascii_text(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn v_to_ascii(b: &[u8]) -> (r: String) ensures r@ == ascii_text(b@) { unimplemented!() }
/// unicode::to_bytestr: the low byte of every character
pub open spec fn low_bytes(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
/// unicode::sort: stable, by the plain-text, lower-case form
#[verifier::opaque]
pub open spec fn plain(s: Seq<char>) -> Seq<char> { qtext(low_bytes(s)) }
pub open spec fn cmp_plain(a: Seq<char>, b: Seq<char>) -> int { cmp_chars(lower(plain(a)), lower(plain(b))) }
pub open spec fn uni_sort(s: Seq<Seq<char>>) -> Seq<Seq<char>> { isort(s, |a: Seq<char>, b: Seq<char>| cmp_plain(a, b)) }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
#[verifier::external_body]
pub fn v_unicode_sort(s: &[String]) -> (r: Vec<String>) ensures strs(r@) == uni_sort(strs(s@)) { unimplemented!() }

// ------------------------------------------------------------------ maps
pub trait VKey {
    type KV;
    spec fn kv(&self) -> Self::KV;
    spec fn klt(a: Self::KV, b: Self::KV) -> bool;
}
impl VKey for String {
    type KV = Seq<char>;
    open spec fn kv(&self) -> Seq<char> { self@ }
    open spec fn klt(a: Seq<char>, b: Seq<char>) -> bool { cmp_chars(a, b) < 0 }
}
impl VKey for u8 {
    type KV = u8;
    open spec fn kv(&self) -> u8 { *self }
    open spec fn klt(a: u8, b: u8) -> bool { a < b }
}
impl VKey for [u8; 2] {
    type KV = Seq<u8>;
    open spec fn kv(&self) -> Seq<u8> { self@ }
    open spec fn klt(a: Seq<u8>, b: Seq<u8>) -> bool { a[0] < b[0] || (a[0] == b[0] && a[1] < b[1]) }
}
/// ks lists the keys of m, each once
pub open spec fn lists_keys<K, V>(ks: Seq<K>, m: Map<K, V>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i])
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> ks.contains(k)
}
/// s holds every entry of m, each once
pub open spec fn entries_of<K: VKey, V>(s: Seq<(&K, &V)>, m: Map<K::KV, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kv()) && *s[i].1 == m[s[i].0.kv()]
    &&& forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
}
pub open spec fn keys_ascending<K: VKey>(ks: Seq<K::KV>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ks.len() ==> K::klt(#[trigger] ks[i], #[trigger] ks[j])
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K: VKey, V> { m: core::marker::PhantomData<(K, V)> }
impl<K: VKey, V> View for HashMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
impl<K: VKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_slot(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()] } else { v }),
            final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_index(&self, k: &K) -> (r: &V) requires self@.dom().contains(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::KV, V>::empty()) { unimplemented!() }
    /// the entries in SOME order: nothing is promised about it
    #[verifier::external_body]
    pub fn v_entries(&self) -> (r: Vec<(&K, &V)>)
        ensures entries_of(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: Vec<&V>)
        ensures exists|ks: Seq<K::KV>| #![auto] lists_keys(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[ks[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_values(self) -> (r: Vec<V>)
        ensures exists|ks: Seq<K::KV>| #![auto] lists_keys(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self@[ks[i]] { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: Vec<&K>)
        ensures lists_keys(Seq::new(r@.len(), |i: int| r@[i].kv()), self@) { unimplemented!() }
}

impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn v_get_str(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k@) && *v == self@[k@], None => !self@.dom().contains(k@) } { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K: VKey, V> { m: core::marker::PhantomData<(K, V)> }
impl<K: VKey, V> View for BTreeMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
/// the keys of a finite map in ascending order
pub open spec fn asc_keys<K: VKey, V>(m: Map<K::KV, V>) -> Seq<K::KV> {
    choose|ks: Seq<K::KV>| lists_keys(ks, m) && #[trigger] keys_ascending::<K>(ks)
}
impl<K: VKey, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_slot(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()] } else { v }),
            final(self)@ == old(self)@.insert(k.kv(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_index(&self, k: &K) -> (r: &V) requires self@.dom().contains(k.kv()) ensures *r == self@[k.kv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::KV, V>::empty()) { unimplemented!() }
    /// the entries in ascending key order
    #[verifier::external_body]
    pub fn v_entries(&self) -> (r: Vec<(&K, &V)>)
        ensures entries_of(r@, self@),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> K::klt((#[trigger] r@[i]).0.kv(), (#[trigger] r@[j]).0.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: Vec<&V>)
        ensures ({ let ks = asc_keys::<K, V>(self@); lists_keys(ks, self@) && keys_ascending::<K>(ks) && ks.len() == r@.len()
            && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[ks[i]] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_values(self) -> (r: Vec<V>)
        ensures ({ let ks = asc_keys::<K, V>(self@); lists_keys(ks, self@) && keys_ascending::<K>(ks) && ks.len() == r@.len()
            && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == self@[ks[i]] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys(&self) -> (r: Vec<&K>)
        ensures ({ let ks = Seq::new(r@.len(), |i: int| r@[i].kv()); lists_keys(ks, self@) && keys_ascending::<K>(ks) }) { unimplemented!() }
}

// ------------------------------------------------------------------ std::io
pub trait Read {
    spec fn rd(&self) -> Seq<u8>;
    spec fn rp(&self) -> int;
    /// Cursor::read_exact: advances past the bytes, or moves to the end when there are too few
    fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), IoError>)
        requires 0 <= old(self).rp()
        ensures
            final(self).rd() == old(self).rd(),
            r is Ok <==> old(self).rp() + N <= old(self).rd().len(),
            r is Ok ==> final(buf)@ == old(self).rd().subrange(old(self).rp(), old(self).rp() + N) && final(self).rp() == old(self).rp() + N,
            r is Err ==> final(self).rp() == old(self).rd().len();
}
pub struct Cursor<'a> { pub d: &'a [u8], pub p: u64 }
impl<'a> Read for Cursor<'a> {
    open spec fn rd(&self) -> Seq<u8> { self.d@ }
    open spec fn rp(&self) -> int { self.p as int }
    #[verifier::external_body]
    fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), IoError>) { unimplemented!() }
}
impl<'a> Cursor<'a> {
    pub fn new(d: &'a [u8]) -> (r: Self) ensures r.rd() == d@, r.rp() == 0 { Cursor { d, p: 0 } }
    pub fn position(&self) -> (r: u64) ensures r == self.rp() { self.p }
    pub fn set_position(&mut self, p: u64) ensures final(self).rd() == old(self).rd(), final(self).rp() == p { self.p = p; }
}

// ------------------------------------------------------------------ std::time, chrono
#[derive(Clone, Copy)]
pub struct Duration { pub nanos: u128 }
pub open spec fn max_nanos() -> int { 18_446_744_073_709_551_615int * 1_000_000_000 + 999_999_999 }
#[verifier::external_body]
pub fn v_duration_from_millis(ms: u64) -> (r: Duration) ensures r.nanos == ms * 1_000_000 { unimplemented!() }
#[verifier::external_body]
pub fn v_duration_from_secs(s: u64) -> (r: Duration) ensures r.nanos == s * 1_000_000_000 { unimplemented!() }
#[verifier::external_body]
pub fn v_duration_zero() -> (r: Duration) ensures r.nanos == 0 { unimplemented!() }
pub uninterp spec fn secs_f64(x: f64) -> Option<Duration>;
#[verifier::external_body]
pub fn v_duration_try_from_secs_f64(x: f64) -> (r: Result<Duration, ParseErr>)
    ensures match r { Ok(d) => secs_f64(x) == Some(d), Err(_) => secs_f64(x) is None } { unimplemented!() }
impl Duration {
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Duration) -> (r: Duration)
        ensures r.nanos == if self.nanos >= o.nanos { self.nanos - o.nanos } else { 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Duration) -> (r: Option<Duration>)
        ensures match r { Some(d) => self.nanos >= o.nanos && d.nanos == self.nanos - o.nanos, None => self.nanos < o.nanos } { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_diff(self, o: Duration) -> (r: Duration)
        ensures r.nanos == if self.nanos >= o.nanos { self.nanos - o.nanos } else { o.nanos - self.nanos } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.nanos == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.nanos as int / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.nanos as int / 1_000_000_000 { unimplemented!() }
}
#[verifier::external_body]
pub fn v_dur_add(a: Duration, b: Duration) -> (r: Duration)
    requires a.nanos + b.nanos <= max_nanos() ensures r.nanos == a.nanos + b.nanos { unimplemented!() }
#[verifier::external_body]
pub fn v_dur_sub(a: Duration, b: Duration) -> (r: Duration)
    requires a.nanos >= b.nanos ensures r.nanos == a.nanos - b.nanos { unimplemented!() }
#[verifier::external_body]
pub fn v_dur_lt(a: Duration, b: Duration) -> (r: bool) ensures r == (a.nanos < b.nanos) { unimplemented!() }
#[verifier::external_body]
pub fn v_dur_le(a: Duration, b: Duration) -> (r: bool) ensures r == (a.nanos <= b.nanos) { unimplemented!() }
#[verifier::external_body]
pub fn v_dur_gt(a: Duration, b: Duration) -> (r: bool) ensures r == (a.nanos > b.nanos) { unimplemented!() }
#[verifier::external_body]
pub fn v_dur_ge(a: Duration, b: Duration) -> (r: bool) ensures r == (a.nanos >= b.nanos) { unimplemented!() }
pub struct Utc {}
pub struct FixedOffset {}
#[verifier::external_body]
#[verifier::reject_recursive_types(Tz)]
pub struct DateTime<Tz> { t: core::marker::PhantomData<Tz> }
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl<T> LocalResult<T> {
    #[verifier::external_body]
    pub fn single(self) -> (r: Option<T>) ensures r == match self { LocalResult::Single(t) => Some(t), _ => None } { unimplemented!() }
    #[verifier::external_body]
    pub fn earliest(self) -> (r: Option<T>) ensures r == match self { LocalResult::Single(t) => Some(t), LocalResult::Ambiguous(t, _) => Some(t), LocalResult::None => None } { unimplemented!() }
    #[verifier::external_body]
    pub fn latest(self) -> (r: Option<T>) ensures r == match self { LocalResult::Single(t) => Some(t), LocalResult::Ambiguous(_, t) => Some(t), LocalResult::None => None } { unimplemented!() }
}
pub uninterp spec fn dt_parse(s: Seq<char>, f: Seq<char>) -> Option<DateTime<FixedOffset>>;
pub uninterp spec fn dt_utc(d: DateTime<FixedOffset>) -> DateTime<Utc>;
pub uninterp spec fn ts_opt(secs: int, nanos: int) -> LocalResult<DateTime<Utc>>;
#[verifier::external_body]
pub fn v_datetime_parse_from_str(s: &str, f: &str) -> (r: Result<DateTime<FixedOffset>, ParseErr>)
    ensures match r { Ok(d) => dt_parse(s@, f@) == Some(d), Err(_) => dt_parse(s@, f@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn v_to_utc(d: DateTime<FixedOffset>) -> (r: DateTime<Utc>) ensures r == dt_utc(d) { unimplemented!() }
#[verifier::external_body]
pub fn v_timestamp_opt(s: i64, n: u32) -> (r: LocalResult<DateTime<Utc>>) ensures r == ts_opt(s as int, n as int) { unimplemented!() }

// ------------------------------------------------------------------ dependencies' data
pub struct BotConfig { pub skill: i32, pub customised: bool }
pub struct KStats { pub frags: i32, pub deaths: i32, pub tk: i32, pub spawn_frags: i32, pub kills: i32, pub suicides: i32 }
pub struct KPlayer {
    pub top_color: i32, pub bottom_color: i32, pub ping: i32, pub login: String, pub name: String, pub team: String,
    pub stats: KStats, pub xfer_rl: i32, pub xfer_lg: i32, pub control: f64, pub bot: Option<BotConfig>,
}
pub struct KtxstatsV3 {
    pub version: u32, pub date: DateTime<Utc>, pub map: String, pub hostname: String, pub ip: String, pub port: u32,
    pub mode: String, pub tl: u32, pub dm: u32, pub tp: u32, pub duration: u32, pub demo: String,
    pub teams: Vec<String>, pub players: Vec<KPlayer>,
}
pub uninterp spec fn kx_of(s: Seq<char>) -> Option<KtxstatsV3>;
impl KtxstatsV3 {
    #[verifier::external_body]
    pub fn v_try_from_str(s: &str) -> (r: Result<KtxstatsV3, ParseErr>)
        ensures match r { Ok(k) => kx_of(s@) == Some(k), Err(_) => kx_of(s@) is None },
            // every listed player takes up at least one character
            r is Ok ==> r->Ok_0.players@.len() <= s@.len() { unimplemented!() }
}
pub struct Clientinfo {
    pub name: Option<String>, pub team: Option<String>, pub topcolor: Option<i32>, pub bottomcolor: Option<i32>,
    pub spectator: Option<i32>, pub auth: Option<String>, pub flag: Option<String>, pub client: Option<String>,
    pub bot: Option<i32>, pub chat: Option<i32>,
}
// the values of an info string: \key\value\key\value
pub open spec fn info_clean(s: Seq<char>) -> Seq<char> {
    trim_end_matches(repl_char(repl_str(trim_end_matches(trim_start(trim_end(s)), "\\n"@), "\\\\"@, seq!['\\']), '"', ""@), seq!['\\'])
}
pub open spec fn info_parts(s: Seq<char>) -> Seq<Seq<char>> {
    split_at_char(trim_start_matches(trim_end_matches(info_clean(s), seq!['\\']), seq!['\\']), '\\')
}
/// key, value, key, value: a later value of a key replaces the earlier one, a last key without value is dropped
pub open spec fn info_pairs(m: Map<Seq<char>, Seq<char>>, v: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>>
    decreases v.len()
{
    if v.len() < 2 { m } else { info_pairs(m.insert(v[0], v[1]), v.subrange(2, v.len() as int)) }
}
pub open spec fn info_map(s: Seq<char>) -> Map<Seq<char>, Seq<char>> { info_pairs(Map::empty(), info_parts(s)) }
pub open spec fn info_text(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> Option<Seq<char>> {
    if m.dom().contains(k) { Some(m[k]) } else { None }
}
pub open spec fn info_int(m: Map<Seq<char>, Seq<char>>, k: Seq<char>) -> Option<i32> {
    match info_text(m, k) {
        Some(t) => match parse_int(t, i32::MIN as int, i32::MAX as int) { Some(v) => Some(v as i32), None => None },
        None => None,
    }
}
pub open spec fn osv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub struct CiS {
    pub name: Option<Seq<char>>,
    pub team: Option<Seq<char>>,
    pub topcolor: Option<i32>,
    pub bottomcolor: Option<i32>,
    pub spectator: Option<i32>,
    pub auth: Option<Seq<char>>,
    pub flag: Option<Seq<char>>,
    pub client: Option<Seq<char>>,
    pub bot: Option<i32>,
    pub chat: Option<i32>,
}
pub open spec fn civ(c: Clientinfo) -> CiS {
    CiS { name: osv(c.name), team: osv(c.team), topcolor: c.topcolor, bottomcolor: c.bottomcolor, spectator: c.spectator, auth: osv(c.auth), flag: osv(c.flag), client: osv(c.client), bot: c.bot, chat: c.chat }
}
pub open spec fn ci_from(m: Map<Seq<char>, Seq<char>>) -> CiS {
    CiS { name: info_text(m, "name"@), team: info_text(m, "team"@), topcolor: info_int(m, "topcolor"@), bottomcolor: info_int(m, "bottomcolor"@), spectator: info_int(m, "*spectator"@), auth: info_text(m, "*auth"@), flag: info_text(m, "*flag"@), client: info_text(m, "*client"@), bot: info_int(m, "*bot"@), chat: info_int(m, "chat"@) }
}
/// the client an info string describes
#[verifier::opaque]
pub open spec fn ci_of(s: Seq<char>) -> CiS { ci_from(info_map(s)) }
impl Clientinfo {
    #[verifier::external_body]
    pub fn v_from_str(s: &str) -> (r: Clientinfo) ensures civ(r) == ci_of(s@) { unimplemented!() }
}
pub struct Settings {
    pub admin: Option<String>, pub deathmatch: Option<i32>, pub epoch: Option<i32>, pub fpd: Option<i32>,
    pub fraglimit: Option<i32>, pub gamedir: Option<String>, pub hostname: Option<String>, pub ktxmode: Option<String>,
    pub ktxver: Option<String>, pub map: Option<String>, pub matchtag: Option<String>, pub maxclients: Option<i32>,
    pub maxfps: Option<i32>, pub maxspectators: Option<i32>, pub mode: Option<String>, pub needpass: Option<i32>,
    pub pm_ktjump: Option<i32>, pub progs: Option<String>, pub qvm: Option<String>, pub status: Option<String>,
    pub serverdemo: Option<String>, pub sv_antilag: Option<i32>, pub teamplay: Option<i32>, pub timelimit: Option<i32>,
    pub version: Option<String>, pub z_ext: Option<i32>,
}
pub struct SiS {
    pub admin: Option<Seq<char>>,
    pub deathmatch: Option<i32>,
    pub epoch: Option<i32>,
    pub fpd: Option<i32>,
    pub fraglimit: Option<i32>,
    pub gamedir: Option<Seq<char>>,
    pub hostname: Option<Seq<char>>,
    pub ktxmode: Option<Seq<char>>,
    pub ktxver: Option<Seq<char>>,
    pub map: Option<Seq<char>>,
    pub matchtag: Option<Seq<char>>,
    pub maxclients: Option<i32>,
    pub maxfps: Option<i32>,
    pub maxspectators: Option<i32>,
    pub mode: Option<Seq<char>>,
    pub needpass: Option<i32>,
    pub pm_ktjump: Option<i32>,
    pub progs: Option<Seq<char>>,
    pub qvm: Option<Seq<char>>,
    pub status: Option<Seq<char>>,
    pub serverdemo: Option<Seq<char>>,
    pub sv_antilag: Option<i32>,
    pub teamplay: Option<i32>,
    pub timelimit: Option<i32>,
    pub version: Option<Seq<char>>,
    pub z_ext: Option<i32>,
}
pub open spec fn siv(c: Settings) -> SiS {
    SiS { admin: osv(c.admin), deathmatch: c.deathmatch, epoch: c.epoch, fpd: c.fpd, fraglimit: c.fraglimit, gamedir: osv(c.gamedir), hostname: osv(c.hostname), ktxmode: osv(c.ktxmode), ktxver: osv(c.ktxver), map: osv(c.map), matchtag: osv(c.matchtag), maxclients: c.maxclients, maxfps: c.maxfps, maxspectators: c.maxspectators, mode: osv(c.mode), needpass: c.needpass, pm_ktjump: c.pm_ktjump, progs: osv(c.progs), qvm: osv(c.qvm), status: osv(c.status), serverdemo: osv(c.serverdemo), sv_antilag: c.sv_antilag, teamplay: c.teamplay, timelimit: c.timelimit, version: osv(c.version), z_ext: c.z_ext }
}
pub open spec fn si_from(m: Map<Seq<char>, Seq<char>>) -> SiS {
    SiS { admin: info_text(m, "*admin"@), deathmatch: info_int(m, "deathmatch"@), epoch: info_int(m, "epoch"@), fpd: info_int(m, "fpd"@), fraglimit: info_int(m, "fraglimit"@), gamedir: info_text(m, "*gamedir"@), hostname: info_text(m, "hostname"@), ktxmode: info_text(m, "ktxmode"@), ktxver: info_text(m, "ktxver"@), map: info_text(m, "map"@), matchtag: info_text(m, "matchtag"@), maxclients: info_int(m, "maxclients"@), maxfps: info_int(m, "maxfps"@), maxspectators: info_int(m, "maxspectators"@), mode: info_text(m, "mode"@), needpass: info_int(m, "needpass"@), pm_ktjump: info_int(m, "pm_ktjump"@), progs: info_text(m, "*progs"@), qvm: info_text(m, "*qvm"@), status: info_text(m, "status"@), serverdemo: info_text(m, "serverdemo"@), sv_antilag: info_int(m, "sv_antilag"@), teamplay: info_int(m, "teamplay"@), timelimit: info_int(m, "timelimit"@), version: info_text(m, "*version"@), z_ext: info_int(m, "*z_ext"@) }
}
/// the settings an info string describes
#[verifier::opaque]
pub open spec fn si_of(s: Seq<char>) -> SiS { si_from(info_map(s)) }
impl Settings {
    #[verifier::external_body]
    pub fn v_from_str(s: &str) -> (r: Settings) ensures siv(r) == si_of(s@) { unimplemented!() }
}

/// a part of a part is a part of the whole
pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
/// the whole as a part of itself
pub broadcast proof fn lemma_sub_all<T>(s: Seq<T>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.subrange(0, n) == s,
{
    assert(s.subrange(0, n) =~= s);
}
/// two bytes put together with shifts
pub broadcast proof fn lemma_or2(a: u8, b: u8)
    ensures #[trigger] ((a as u16) | ((b as u16) << 8)) == a + 256 * b,
{
    assert(((a as u16) | ((b as u16) << 8)) == (a as u16) + 256 * (b as u16)) by (bit_vector);
}
pub broadcast proof fn lemma_or2b(a: u8, b: u8)
    ensures #[trigger] (((b as u16) << 8) | (a as u16)) == a + 256 * b,
{
    assert((((b as u16) << 8) | (a as u16)) == (a as u16) + 256 * (b as u16)) by (bit_vector);
}
/// four bytes put together with shifts
pub broadcast proof fn lemma_or4(a: u8, b: u8, c: u8, d: u8)
    ensures #[trigger] ((((a as u32) | ((b as u32) << 8)) | ((c as u32) << 16)) | ((d as u32) << 24)) == a + 256 * b + 65536 * c + 16777216 * d,
{
    assert(((((a as u32) | ((b as u32) << 8)) | ((c as u32) << 16)) | ((d as u32) << 24)) == (a as u32) + 256 * (b as u32) + 65536 * (c as u32) + 16777216 * (d as u32)) by (bit_vector);
}
pub broadcast group group_shim {
    axiom_string_ext, axiom_vec_ext, lemma_cat2, lemma_find, lemma_rfind, lemma_cidx, lemma_sub_sub, lemma_sub_all, lemma_or2, lemma_or2b, lemma_or4,
}
}
