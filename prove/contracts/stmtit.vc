//# the statement iterator (C09)
@fn Range::start_line
@ensures C09
r == self.0.line,
@fn Range::end_line
@ensures C09
r == self.1.line,
@fn StatementIterator::new
@ensures C09 C17
wf(r),
r@ == start_st($1@),
@variant
//# the comments dropped by a loop that copies what stays
@loop 0
invariant
    ${Vec::new()}@ + no_comments(${.*__into_it\(\)$}.rest()) == no_comments($1@),
ensures
    ${Vec::new()}@ == no_comments($1@),
decreases ${.*__into_it\(\)$}.rest().len(),
%body
proof { if ${.*__into_it\(\)$}.rest().len() > 0 { lemma_no_comments_first(${.*__into_it\(\)$}.rest()); } else { assert(no_comments(${.*__into_it\(\)$}.rest()) =~= Seq::<Token>::empty()); } }
@fn StatementIterator::next
@first
broadcast use {lemma_bump_push, lemma_cons_bump};
@requires
wf(*old(self)),
@ensures C09
wf(*final(self)),
r == head(old(self)@),
final(self)@ == bump(old(self)@),
final(self).peeked is None,
@decreases
(if old(self).peeked is Some { 0int } else { 1int }), old(self).tokens_iter@.len(),
@fn StatementIterator::peek
@first
broadcast use {lemma_bump_push, lemma_cons_bump};
@requires
wf(*old(self)),
@ensures C09
wf(*final(self)),
(match r { Some(t) => Some(*t), None => None }) == head(old(self)@),
final(self)@ == old(self)@,
@fn StatementIterator::next_if
@requires
wf(*old(self)),
old(self)@.cur.len() > 0 ==> call_requires($1, (&old(self)@.cur[0],)),
@ensures C09
wf(*final(self)),
match r {
    Some(t) => head(old(self)@) == Some(t) && final(self)@ == bump(old(self)@) && call_ensures($1, (&old(self)@.cur[0],), true),
    None => final(self)@ == old(self)@ && (old(self)@.cur.len() > 0 ==> call_ensures($1, (&old(self)@.cur[0],), false)),
},
@fn StatementIterator::next_if_token_type_eq
@requires
wf(*old(self)),
@ensures C09
wf(*final(self)),
r == (if old(self)@.cur.len() > 0 && tt_eq(old(self)@.cur[0].token_type, $1) { head(old(self)@) } else { None }),
final(self)@ == (if r is Some { bump(old(self)@) } else { old(self)@ }),
@fn StatementIterator::next_if_token_type_ne
@requires
wf(*old(self)),
@ensures C09
wf(*final(self)),
r == (if old(self)@.cur.len() > 0 && !tt_eq(old(self)@.cur[0].token_type, $1) { head(old(self)@) } else { None }),
final(self)@ == (if r is Some { bump(old(self)@) } else { old(self)@ }),
@fn StatementIterator::next_statement
@requires
wf(*old(self)),
@ensures C09
wf(*final(self)),
r@ == old(self)@.cur,
final(self)@ == next_st(old(self)@),
@first
proof { lemma_no_stmt(); }
@loop 0
invariant_except_break
    split(self.tokens_iter@) == old(self)@.rest,
    self.peeked is None,
ensures
    split(self.tokens_iter@) == old(self)@.rest,
    self.peeked is None,
    self.tokens_iter@.len() > 0 ==> !is_separator(self.tokens_iter@[0]),
decreases self.tokens_iter@.len(),
%body
proof { lemma_split(self.tokens_iter@); if self.tokens_iter@.len() > 0 { lemma_split(self.tokens_iter@.drop_first()); } }
@last
proof {
    lemma_split(self.tokens_iter@);
    assert(self@.cur =~= next_st(old(self)@).cur);
    assert(self@.rest =~= next_st(old(self)@).rest);
}
@fn StatementIterator::next_statement_should_be_empty
@requires
wf(*old(self)),
@ensures C12
wf(*final(self)),
match r {
    Ok(_) => old(self)@.cur.len() == 0 && final(self)@ == next_st(old(self)@),
    Err(e) => old(self)@.cur.len() > 0 && e is TooManyTokens && e->TooManyTokens_0@ == old(self)@.cur && final(self)@ == (St { cur: Seq::empty(), rest: old(self)@.rest }),
},
