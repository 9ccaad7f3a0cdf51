//@broadcast group_kw
//@nobroadcast
// Keywords.
verus! {
pub open spec fn is_letter(c: char) -> bool { c == '_' || is_lower(c) || is_upper(c) }
/// `w` stands at the beginning of `r` and is not just the beginning of a longer word
pub open spec fn word_at(r: Seq<char>, w: Seq<char>) -> bool { starts_at(r, w) && !(w.len() < r.len() && is_letter(r[w.len() as int])) }
/// the character at place `i`, or NUL after the end
pub open spec fn char_at(r: Seq<char>, i: int) -> char { if 0 <= i < r.len() { r[i] } else { '\0' } }

//@generate keywords

/// the keyword at the beginning of `r`
#[verifier::opaque]
pub open spec fn kw_at(r: Seq<char>) -> Option<Keywords> {
    if exists|k: Keywords| word_at(r, #[trigger] kw_text(k)) { Some(choose|k: Keywords| word_at(r, #[trigger] kw_text(k))) } else { None }
}
/// C07: at most one keyword stands at the beginning of a text
pub proof fn theorem_kw_unique(r: Seq<char>, a: Keywords, b: Keywords)
    requires word_at(r, kw_text(a)), word_at(r, kw_text(b)),
    ensures a == b,
{ lemma_kw_tree(r, a); lemma_kw_tree(r, b); }
/// C07: no two keywords share a spelling
pub proof fn theorem_kw_distinct(a: Keywords, b: Keywords)
    requires kw_text(a) == kw_text(b),
    ensures a == b,
{ let w = kw_text(a); assert(w.take(w.len() as int) =~= w); theorem_kw_unique(w, a, b); }
pub broadcast proof fn lemma_kw_at(r: Seq<char>, k: Keywords)
    requires #[trigger] word_at(r, kw_text(k)),
    ensures kw_at(r) == Some(k),
{ reveal(kw_at); let c = choose|k: Keywords| word_at(r, #[trigger] kw_text(k)); theorem_kw_unique(r, c, k); }
/// C07: each keyword can be produced by writing its spelling
pub proof fn theorem_kw_producible(k: Keywords)
    ensures kw_at(kw_text(k)) == Some(k),
{ let w = kw_text(k); assert(w.take(w.len() as int) =~= w); lemma_kw_at(w, k); }
pub broadcast proof fn lemma_kw_len(k: Keywords)
    ensures (#[trigger] kw_text(k)).len() > 0,
{ lemma_kw_nonempty(k); }
pub open spec fn kw_found(r: Option<&Keywords>, s: Seq<char>) -> bool {
    match r { Some(k) => word_at(s, kw_text(*k)), None => forall|k: Keywords| !word_at(s, #[trigger] kw_text(k)) }
}
pub broadcast proof fn lemma_kw_at_def(r: Seq<char>)
    ensures match #[trigger] kw_at(r) { Some(k) => word_at(r, kw_text(k)), None => forall|k: Keywords| !word_at(r, #[trigger] kw_text(k)) },
{ reveal(kw_at); if exists|k: Keywords| word_at(r, #[trigger] kw_text(k)) { let c = choose|k: Keywords| word_at(r, #[trigger] kw_text(k)); } }
pub broadcast group group_kw { lemma_kw_at, lemma_kw_at_def, lemma_kw_len }
} // verus!
