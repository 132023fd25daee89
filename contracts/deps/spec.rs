// Lemmas for the sources of the quake_* crates.
use vstd::prelude::*;
use crate::shim::*;
verus! {
broadcast use group_shim;
pub open spec fn cmp_text(a: String, b: String) -> int { cmp_plain(a@, b@) }
pub broadcast proof fn lemma_total_text(c: spec_fn(String, String) -> int)
    requires forall|a: String, b: String| #[trigger] c(a, b) == cmp_text(a, b)
    ensures #[trigger] total_preorder(c),
{
    assert forall|a: String, b: String| #[trigger] c(a, b) <= 0 || c(b, a) <= 0 by { lemma_cmp_chars_anti(lower(plain(a@)), lower(plain(b@))); }
    assert forall|a: String, b: String| (#[trigger] c(a, b) < 0) == (c(b, a) > 0) by { lemma_cmp_chars_anti(lower(plain(a@)), lower(plain(b@))); }
    assert forall|a: String, b: String, d: String| #[trigger] c(a, b) <= 0 && #[trigger] c(b, d) <= 0 implies c(a, d) <= 0 by {
        lemma_cmp_chars_trans(lower(plain(a@)), lower(plain(b@)), lower(plain(d@)));
    }
}
pub broadcast proof fn lemma_sort_text(s: Seq<String>, c: spec_fn(String, String) -> int)
    requires forall|a: String, b: String| #[trigger] c(a, b) == cmp_text(a, b)
    ensures strs(#[trigger] isort(s, c)) == uni_sort(strs(s))
{
    lemma_isort_map(s, |x: String| x@, c, |a: Seq<char>, b: Seq<char>| cmp_plain(a, b));
}
/// the text map behind a map of strings
pub open spec fn text_map(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
pub broadcast proof fn lemma_text_insert(m: Map<Seq<char>, String>, k: Seq<char>, v: String)
    ensures #[trigger] text_map(m.insert(k, v)) == text_map(m).insert(k, v@)
{
    assert(text_map(m.insert(k, v)) =~= text_map(m).insert(k, v@));
}
pub broadcast proof fn lemma_pair(m: Map<Seq<char>, Seq<char>>, v: Seq<String>)
    requires v.len() >= 2
    ensures #![trigger info_pairs(m, strs(v)), v.drop_first().drop_first()]
        info_pairs(m, strs(v)) == info_pairs(m.insert(v[0]@, v[1]@), strs(v.drop_first().drop_first()))
{
    assert(strs(v).subrange(2, v.len() as int) =~= strs(v.drop_first().drop_first()));
}
pub broadcast proof fn lemma_plain(s: Seq<char>)
    ensures plain(s) == #[trigger] qtext(low_bytes(s))
{
    reveal(plain);
}
pub uninterp spec fn mark() -> int;
pub broadcast group group_spec { lemma_total_text, lemma_sort_text, lemma_text_insert, lemma_pair, lemma_plain }
}
