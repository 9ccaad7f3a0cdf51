// Positions in a text.
verus! {

/// a position, as mathematical integers
pub struct PosV { pub line: int, pub column: int, pub bytes: int, pub chars: int }
pub open spec fn pv(p: Position) -> PosV { PosV { line: p.line as int, column: p.column as int, bytes: p.bytes as int, chars: p.chars as int } }

#[cfg(verus_keep_ghost)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for Position {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Position) -> bool { same_place(pv(*self), pv(*other)) }
}
#[cfg(verus_keep_ghost)]
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Position {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Position) -> Option<core::cmp::Ordering> {
        Some(if self.bytes < other.bytes { core::cmp::Ordering::Less } else if self.bytes == other.bytes { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater })
    }
}
#[cfg(verus_keep_ghost)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for Range {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Range) -> bool { same_place(pv(self.0), pv(other.0)) && same_place(pv(self.1), pv(other.1)) }
}
/// the number of newlines of a text
pub open spec fn newlines(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { newlines(s.drop_last()) + if s.last() == '\n' { 1int } else { 0 } }
}
/// the number of bytes after the last newline of a text
pub open spec fn tail_bytes(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || s.last() == '\n' { 0 } else { tail_bytes(s.drop_last()) + clen(s.last()) }
}
/// the position of the place before character `k` of the text `t`
pub open spec fn pos_at(t: Seq<char>, k: int) -> PosV {
    PosV { line: 1 + newlines(t.take(k)), column: 1 + tail_bytes(t.take(k)), bytes: blen(t.take(k)), chars: k }
}
/// where a position moves to when the text `s` is read
pub open spec fn advance(p: PosV, s: Seq<char>) -> PosV {
    PosV {
        line: p.line + newlines(s),
        column: if newlines(s) > 0 { 1 + tail_bytes(s) } else { p.column + tail_bytes(s) },
        bytes: p.bytes + blen(s),
        chars: p.chars + s.len(),
    }
}
pub open spec fn fits(p: Position, s: Seq<char>) -> bool {
    &&& 0 <= p.line && 0 <= p.column && 0 <= p.bytes && 0 <= p.chars
    &&& p.line + blen(s) <= i32::MAX && p.column + blen(s) <= i32::MAX && p.bytes + blen(s) <= i32::MAX && p.chars + blen(s) <= i32::MAX
}
pub proof fn lemma_counts(s: Seq<char>)
    ensures 0 <= newlines(s) <= s.len(), 0 <= tail_bytes(s) <= blen(s), newlines(s) == 0 ==> tail_bytes(s) == blen(s), newlines(s) + tail_bytes(s) <= blen(s),
    decreases s.len(),
{ lemma_blen_min(s); if s.len() > 0 { lemma_counts(s.drop_last()); lemma_blen_min(s.drop_last()); } }
pub proof fn lemma_newlines_add(a: Seq<char>, b: Seq<char>)
    ensures
        newlines(a + b) == newlines(a) + newlines(b),
        tail_bytes(a + b) == if newlines(b) > 0 { tail_bytes(b) } else { tail_bytes(a) + tail_bytes(b) },
    decreases b.len(),
{
    lemma_counts(b);
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_newlines_add(a, b.drop_last()); lemma_counts(b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
/// reading on from a place of the text gives the position of the place reached
pub proof fn lemma_advance(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(),
    ensures advance(pos_at(t, i), t.subrange(i, j)) == pos_at(t, j),
{
    let s = t.subrange(i, j);
    assert(t.take(j) =~= t.take(i) + s);
    lemma_blen_add(t.take(i), s);
    lemma_newlines_add(t.take(i), s);
    lemma_counts(s);
    lemma_counts(t.take(i));
}
pub proof fn lemma_pos_bounds(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures ({ let p = pos_at(t, i); 1 <= p.line <= 1 + blen(t.take(i)) && 1 <= p.column <= 1 + blen(t.take(i)) && i <= p.bytes <= blen(t) && 0 <= p.chars <= blen(t.take(i)) && p.bytes + blen(t.skip(i)) == blen(t) }),
{ lemma_counts(t.take(i)); lemma_blen_min(t.take(i)); lemma_blen_split(t, i); lemma_blen_min(t.skip(i)); }

/// C21: positions of the same text are equal exactly when they denote the same place, and are ordered as the places are
pub open spec fn same_place(a: PosV, b: PosV) -> bool { a.line == b.line && a.column == b.column }
pub proof fn theorem_c21(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= t.len(), 0 <= j <= t.len(),
    ensures
        same_place(pos_at(t, i), pos_at(t, j)) <==> i == j,
        pos_at(t, i).bytes < pos_at(t, j).bytes <==> i < j,
        pos_at(t, i).bytes == pos_at(t, j).bytes <==> i == j,
{
    if i < j { lemma_places(t, i, j); } else if j < i { lemma_places(t, j, i); }
}
proof fn lemma_places(t: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= t.len(),
    ensures !same_place(pos_at(t, i), pos_at(t, j)), pos_at(t, i).bytes < pos_at(t, j).bytes,
{
    let s = t.subrange(i, j);
    lemma_blen_mono(t, i, j);
    lemma_counts(s);
    lemma_blen_min(s);
    lemma_advance(t, i, j);
}
} // verus!
