@fn starts_with_word
@ensures C05 C07
r == word_at($1@, $2@),

@fn parse_keyword
@ensures C02
r is Some ==> starts_at($1@, r->Some_0.0@) && r->Some_0.0@.len() > 0,
@ensures C05 C07
r is Some <==> kw_at($1@) is Some,
r is Some ==> Some(r->Some_0.1) == kw_at($1@),
@ensures C04 C05 C07
r is Some ==> r->Some_0.0@ == kw_text(r->Some_0.1),
@loop 0
invariant_except_break
    ${None} is None,
    forall|k: Keywords| ${Keywords::iter}.rest().contains(k) || !word_at($1@, #[trigger] kw_text(k)),
ensures
    kw_found(${None}, $1@),
decreases ${Keywords::iter}.rest().len(),
%body
let ghost __rest0 = ${Keywords::iter}.rest();
proof {
    assert forall|k: Keywords| #[trigger] __rest0.contains(k) implies k == __rest0[0] || __rest0.drop_first().contains(k) by {
        let i = choose|i: int| 0 <= i < __rest0.len() && __rest0[i] == k;
        if i > 0 { assert(__rest0.drop_first()[i - 1] == k); }
    }
}
@before loop
proof { assert forall|k: Keywords| ${Keywords::iter}.rest().contains(k) || !word_at($1@, #[trigger] kw_text(k)) by { lemma_kw_all(${Keywords::iter}.rest(), k); } }
@variant
@loop 0
invariant_except_break
    forall|k: Keywords| ${Keywords::iter}.rest().contains(k) || !word_at($1@, #[trigger] kw_text(k)),
ensures
    kw_found(None, $1@),
decreases ${Keywords::iter}.rest().len(),
%body
let ghost __rest0 = ${Keywords::iter}.rest();
proof {
    assert forall|k: Keywords| #[trigger] __rest0.contains(k) implies k == __rest0[0] || __rest0.drop_first().contains(k) by {
        let i = choose|i: int| 0 <= i < __rest0.len() && __rest0[i] == k;
        if i > 0 { assert(__rest0.drop_first()[i - 1] == k); }
    }
}
@before loop
proof { assert forall|k: Keywords| ${Keywords::iter}.rest().contains(k) || !word_at($1@, #[trigger] kw_text(k)) by { lemma_kw_all(${Keywords::iter}.rest(), k); } }

@fn parse_number
@requires
blen($1@) <= i32::MAX,
@ensures C02
r is Some ==> starts_at($1@, r->Some_0.0@) && r->Some_0.0@.len() > 0,
@ensures C05
r is Some <==> is_num($1@),
r is Some ==> r->Some_0.0@.len() == num_end($1@, 0, false).0,
r is Some ==> (r->Some_0.1 is Float <==> num_end($1@, 0, false).1),
@ensures C04
r is Some && r->Some_0.1 is Int ==> int_val(r->Some_0.0@) == Some(r->Some_0.1->Int_0 as int),
r is Some && r->Some_0.1 is Float ==> r->Some_0.1->Float_0 == float_val(r->Some_0.0@),
@first
proof { reveal(is_num); lemma_num_end($1@); assert($1@.skip(0) =~= $1@); }
@loop 0
invariant_except_break
    ${0} == $1@.len() - ${CharsIt::new}.rest().len(),
    ${0#1} == $1@.len() - ${CharsIt::new}.rest().len(),
    ${None} is None,
    num_end($1@, 0, false) == num_end($1@, ${0#1} as int, ${false}),
invariant
    blen($1@) <= i32::MAX,
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
ensures
    match ${None} { Some(k) => k <= $1@.len() && num_end($1@, 0, false) == (k as int, ${false}), None => num_end($1@, 0, false) == ($1@.len() as int, ${false}) && ${CharsIt::new}.rest().len() == 0 },
decreases ${CharsIt::new}.rest().len(),
%body
proof { lemma_cidx_full($1@); }
@variant
//# the end of the number in a variable that starts at the end of the text
@first
proof { reveal(is_num); lemma_num_end($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop /CharsIt::new/
invariant_except_break
    ${0} == $1@.len() - %it.rest().len(),
    ${str_len} == blen($1@),
    num_end($1@, 0, false) == num_end($1@, ${0} as int, ${false}),
invariant
    blen($1@) <= i32::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    (${str_len} == blen($1@) && num_end($1@, 0, false) == ($1@.len() as int, ${false})) || (${str_len} <= $1@.len() && num_end($1@, 0, false) == (${str_len} as int, ${false})),
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); lemma_char($1@, $1@.len() - %it.rest().len()); }
@variant
//# the same over places in bytes
@first
proof { reveal(is_num); lemma_num_end($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop /CharIndicesIt::new/
invariant_except_break
    %it.off() == $1@.len() - %it.rest().len(),
    ${str_len} == blen($1@),
    num_end($1@, 0, false) == num_end($1@, %it.off(), ${false}),
invariant
    blen($1@) <= i32::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    (${str_len} == blen($1@) && num_end($1@, 0, false) == ($1@.len() as int, ${false})) || (${str_len} <= $1@.len() && num_end($1@, 0, false) == (${str_len} as int, ${false})),
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); lemma_char($1@, $1@.len() - %it.rest().len()); }
@variant
//# a search for the first character that does not belong, by place in bytes
@first
proof { reveal(is_num); lemma_num_end($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop /CharIndicesIt::new/
invariant_except_break
    %it.off() == $1@.len() - %it.rest().len(),
    ${None} is None,
    num_end($1@, 0, false) == num_end($1@, %it.off(), ${false}),
invariant
    blen($1@) <= i32::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    match ${None} { Some(k) => k.0 <= $1@.len() && num_end($1@, 0, false) == (k.0 as int, ${false}), None => num_end($1@, 0, false) == ($1@.len() as int, ${false}) },
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); lemma_char($1@, $1@.len() - %it.rest().len()); }
@variant
//# a count of the characters that belong
@first
proof { reveal(is_num); lemma_num_end($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop /CharsIt::new/
invariant_except_break
    ${0} == $1@.len() - %it.rest().len(),
    num_end($1@, 0, false) == num_end($1@, ${0} as int, ${false}),
invariant
    blen($1@) <= i32::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    ${0} <= $1@.len() && num_end($1@, 0, false) == (${0} as int, ${false}),
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); lemma_char($1@, $1@.len() - %it.rest().len()); }
@fn parse_identifier
@ensures C02
r is Some ==> starts_at($1@, r->Some_0@) && r->Some_0@.len() > 0,
@ensures C05 C04
r is Some <==> ident_len($1@, 0) > 0,
r is Some ==> r->Some_0@.len() == ident_len($1@, 0),
@first
proof { lemma_ident_len($1@, 0); lemma_ident_ascii($1@); assert($1@.skip(0) =~= $1@); }
@loop 0
invariant_except_break
    ${0} == $1@.len() - ${CharsIt::new}.rest().len(),
    ident_len($1@, 0) == ident_len($1@, ${0} as int),
invariant
    blen($1@) <= usize::MAX,
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
ensures
    ${0} == ident_len($1@, 0),
decreases ${CharsIt::new}.rest().len(),
%body
proof { lemma_cidx_full($1@); }
@variant
//# the first character that does not belong, searched by place in bytes
@first
proof { lemma_ident_len($1@, 0); lemma_ident_ascii($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop /CharIndicesIt::new/
invariant_except_break
    ${None} is None,
    ident_len($1@, 0) == ident_len($1@, $1@.len() - %it.rest().len()),
    %it.off() == $1@.len() - %it.rest().len(),
invariant
    blen($1@) <= usize::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    match ${None} { Some(k) => k == ident_len($1@, 0) && k < $1@.len(), None => ident_len($1@, 0) == $1@.len() },
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); lemma_char($1@, $1@.len() - %it.rest().len()); }
@variant
//# the same, by place in characters
@first
proof { lemma_ident_len($1@, 0); lemma_ident_ascii($1@); assert($1@.skip(0) =~= $1@); }
@loop /CharsIt::new/
invariant_except_break
    ${None} is None,
    ${0} == $1@.len() - %it.rest().len(),
    ident_len($1@, 0) == ident_len($1@, ${0} as int),
invariant
    blen($1@) <= usize::MAX,
    0 <= $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
ensures
    match ${None} { Some(k) => k == ident_len($1@, 0) && k < $1@.len(), None => ident_len($1@, 0) == $1@.len() },
decreases %it.rest().len(),
%body
proof { lemma_cidx_full($1@); }
@fn parse_string
@requires
$1@.len() > 0,
@ensures C02
r is Some ==> starts_at($1@, r->Some_0.0@) && r->Some_0.0@.len() > 0,
@ensures C05
r is Some <==> $1@[0] == '"',
r is Some ==> r->Some_0.0@.len() == str_end($1@),
@ensures C04
r is Some ==> r->Some_0.1@ == match close_quote($1@, 1) { Some(e) => $1@.subrange(1, e), None => $1@.skip(1) },
@first
proof { lemma_close_quote($1@, 1); assert(clen('"') == 1); lemma_quotes($1@); assert($1@.skip(0) =~= $1@); assert($1@.take($1@.len() as int) =~= $1@); }
@loop 0
invariant
    $1@.len() > 0, $1@[0] == '"', blen($1@) <= usize::MAX, bnd($1@, 1), cidx($1@, 1) == 1,
    0 < $1@.len() - ${CharIndicesIt::new}.rest().len(),
    ${CharIndicesIt::new}.rest() == $1@.skip($1@.len() - ${CharIndicesIt::new}.rest().len()),
    ${CharIndicesIt::new}.off() == blen($1@.take($1@.len() - ${CharIndicesIt::new}.rest().len())),
    close_quote($1@, 1) == close_quote($1@, $1@.len() - ${CharIndicesIt::new}.rest().len()),
ensures
    ${CharIndicesIt::new}.rest().len() == 0,
decreases ${CharIndicesIt::new}.rest().len(),
%body
proof { lemma_char($1@, $1@.len() - ${CharIndicesIt::new}.rest().len()); }
@variant
@first
proof { lemma_close_quote($1@, 1); assert(clen('"') == 1); lemma_quotes($1@); assert($1@.skip(0) =~= $1@); assert($1@.take($1@.len() as int) =~= $1@); lemma_first($1@); lemma_first_is($1@, '"'); lemma_char($1@, 0); }
@loop /CharIndicesIt::new|\w+$/
invariant
    $1@.len() > 0, $1@[0] == '"', blen($1@) <= usize::MAX, bnd($1@, 1), cidx($1@, 1) == 1,
    0 < $1@.len() - %it.rest().len(),
    %it.rest() == $1@.skip($1@.len() - %it.rest().len()),
    %it.off() == blen($1@.take($1@.len() - %it.rest().len())),
    ${false} ==> $1@[$1@.len() - %it.rest().len() - 1] == ':' && $1@.len() - %it.rest().len() > 1 && close_quote($1@, 1) == close_quote($1@, $1@.len() - %it.rest().len() - 1),
    !${false} ==> close_quote($1@, 1) == close_quote($1@, $1@.len() - %it.rest().len()),
ensures
    %it.rest().len() == 0, close_quote($1@, 1) is None,
decreases %it.rest().len(),
%body
proof { lemma_char($1@, $1@.len() - %it.rest().len()); }
@fn parse_bukkit_slot_access
@ensures C02
r is Some ==> starts_at($1@, r->Some_0@) && r->Some_0@.len() > 0,
@ensures C05
r is Some <==> starts_at($1@, p_slot()),
r is Some ==> r->Some_0@.len() == 2,
@first
proof { assert("'Z"@ =~= p_slot()); if starts_at($1@, p_slot()) { lemma_ascii2($1@); } }
@fn parse_whitespace
@requires
fits(*old($2), $1@),
@ensures C02 C05 C03 C06
r == ws_len($1@, 0),
pv(*final($2)).chars == pv(*old($2)).chars + r,
@ensures C02 C03
pv(*final($2)).bytes == advance(pv(*old($2)), $1@.take(r as int)).bytes,
@ensures C03
pv(*final($2)).line == advance(pv(*old($2)), $1@.take(r as int)).line,
pv(*final($2)).column == advance(pv(*old($2)), $1@.take(r as int)).column,
@ensures C01
r <= $1@.len() && ascii($1@.take(r as int)),
@first
proof { lemma_ws_len($1@, 0); lemma_ws_ascii($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop 0
invariant_except_break
    ${0} == $1@.len() - ${CharsIt::new}.rest().len(),
invariant
    fits(*old($2), $1@), blen($1@) <= usize::MAX, $1@.len() <= blen($1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    ${0} <= $1@.len(),
    $2.chars == old($2).chars + ${0},
    $2.bytes == old($2).bytes + blen($1@.take(${0} as int)),
    $2.line == advance(pv(*old($2)), $1@.take(${0} as int)).line,
    $2.column == advance(pv(*old($2)), $1@.take(${0} as int)).column,
    ws_len($1@, 0) == ws_len($1@, ${0} as int),
ensures
    ${0} == ws_len($1@, 0),
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_char($1@, k); assert(k < $1@.len() ==> ${0} + 1 <= usize::MAX);
    lemma_counts($1@.take(k));
    if k < $1@.len() { lemma_counts($1@.take(k + 1)); }
}
@fn parse_ellipsis
@ensures C02
r is Some ==> starts_at($1@, r->Some_0@) && r->Some_0@.len() > 0,
@ensures C05
r is Some <==> starts_at($1@, p_dots()) || ($1@.len() > 0 && $1@[0] == '\u{2026}'),
r is Some ==> r->Some_0@.len() == if starts_at($1@, p_dots()) { 3int } else { 1 },
@first
proof { lemma_ellipsis_texts(); if starts_at($1@, p_dots()) { lemma_ascii3($1@); } lemma_first($1@); lemma_first_is($1@, '\u{2026}'); }
@fn parse_boolean
@ensures C02
r is Some ==> starts_at($1@, r->Some_0.0@) && r->Some_0.0@.len() > 0,
@ensures C05 C07
r is Some <==> kwat($1@, Keywords::WIN) || kwat($1@, Keywords::FAIL),
r is Some ==> r->Some_0.0@.len() == if kwat($1@, Keywords::WIN) { kw_text(Keywords::WIN).len() } else { kw_text(Keywords::FAIL).len() },
@ensures C04
r is Some ==> r->Some_0.0@ == if r->Some_0.1 { kw_text(Keywords::WIN) } else { kw_text(Keywords::FAIL) },
@fn parse_noob
@ensures C02
r is Some ==> starts_at($1@, r->Some_0@) && r->Some_0@.len() > 0,
@ensures C05 C07
r is Some <==> kwat($1@, Keywords::NOOB),
r is Some ==> r->Some_0@.len() == kw_text(Keywords::NOOB).len(),
@fn parse_single_line_comment
@ensures C02
r is Some ==> starts_at($1@, r->Some_0.0@) && r->Some_0.0@.len() > 0,
@ensures C05
r is Some <==> starts_at($1@, kw_text(Keywords::BTW)),
r is Some ==> r->Some_0.0@.len() == line_end($1@),
@ensures C04
r is Some ==> r->Some_0.1@ == $1@.subrange(kw_text(Keywords::BTW).len() as int, line_end($1@)),
@first
proof { lemma_comment($1@); assert($1@.take($1@.len() as int) =~= $1@); if starts_at($1@, kw_text(Keywords::BTW)) { lemma_raw_comment($1@, line_end($1@)); lemma_raw_comment($1@, $1@.len() as int); } }
@variant
@first
proof { lemma_comment($1@); assert($1@.take($1@.len() as int) =~= $1@); if starts_at($1@, kw_text(Keywords::BTW)) { lemma_raw_comment($1@, line_end($1@)); lemma_raw_comment($1@, $1@.len() as int); lemma_find_rest($1@, kw_text(Keywords::BTW), seq!['\n']); } }
@fn parse_multi_line_comment
@ensures C02
r is Ok && r->Ok_0 is Some ==> starts_at($1@, r->Ok_0->Some_0.0@) && r->Ok_0->Some_0.0@.len() > 0,
@ensures C05 C06
r is Err <==> starts_at($1@, kw_text(Keywords::OBTW)) && find_at($1@, kw_text(Keywords::TLDR), 0) is None,
r is Ok ==> (r->Ok_0 is Some <==> starts_at($1@, kw_text(Keywords::OBTW))),
r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.0@.len() == multi_end($1@),
@ensures C04
r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0.1@ == $1@.subrange(kw_text(Keywords::OBTW).len() as int, multi_end($1@) - kw_text(Keywords::TLDR).len()),
@first
proof { lemma_comment($1@); }
@variant
@first
proof { lemma_comment($1@); if starts_at($1@, kw_text(Keywords::OBTW)) { lemma_find_rest($1@, kw_text(Keywords::OBTW), kw_text(Keywords::TLDR)); } }
@fn make_token
@requires
starts_at(old($1)@, $3@), fits(*old($2), $3@),
@ensures C02 C04 C05 C06
final($1)@ == old($1)@.skip($3@.len() as int),
@ensures C02 C03 C04 C05 C06
r.range.0.chars == old($2).chars, r.range.1.chars == old($2).chars + $3@.len(), final($2).chars == old($2).chars + $3@.len(),
@ensures C02 C03
r.range.0.bytes == old($2).bytes, r.range.1.bytes == old($2).bytes + blen($3@), final($2).bytes == old($2).bytes + blen($3@),
@ensures C03
pv(r.range.0) == pv(*old($2)), pv(r.range.1) == advance(pv(*old($2)), $3@), pv(*final($2)) == advance(pv(*old($2)), $3@),
@ensures C04 C05
r.token_type == $4,
@fn tokenize
@hide starts_at word_at is_letter blen newlines tail_bytes find_at num_end close_quote ident_len ws_len int_val str_end line_end advance
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::rlimit(50)]
@attr #[verifier::allow_complex_invariants]
@requires
blen($1@) < i32::MAX,
@ensures C02
r is Ok ==> good_tiles(r->Ok_0@, $1@, $1@.len() as int),
@ensures C03
r is Ok ==> good_positions(r->Ok_0@, $1@),
r is Err ==> err_positions(r->Err_0, $1@),
@ensures C04
r is Ok ==> good_content(r->Ok_0@, $1@),
@ensures C05 C07
r is Ok ==> good_class(r->Ok_0@, $1@),
@ensures C06
r is Ok <==> lex_fail($1@, 0) is None,
r is Err ==> err_place(r->Err_0, lex_fail($1@, 0), $1@.len() as int),
@first
let ghost __t = $1@;
proof {
    lemma_start(__t); assert(__t.skip(0) =~= __t);
}
@loop 0
invariant
    blen(__t) < i32::MAX,
    0 <= ${Position}.chars <= __t.len(),
    ${str_slice_from|code}@ == __t.skip(${Position}.chars as int), /*@inv C01 C02 C03 C04 C05 C06 C07*/
    pv(${Position}).bytes == pos_at(__t, ${Position}.chars as int).bytes, /*@inv C02 C03*/
    pv(${Position}) == pos_at(__t, ${Position}.chars as int), /*@inv C03*/
    good_tiles(${Vec::new}@, __t, ${Position}.chars as int), /*@inv C02*/
    good_positions(${Vec::new}@, __t), /*@inv C03*/
    good_content(${Vec::new}@, __t), /*@inv C04*/
    good_class(${Vec::new}@, __t), /*@inv C05 C07*/
    lex_fail(__t, ${Position}.chars as int) == lex_fail(__t, 0), /*@inv C06*/
ensures
    ${Position}.chars == __t.len(),
decreases ${str_slice_from|code}@.len(),
%body
proof {
    let i = ${Position}.chars as int;
    lemma_pos_bounds(__t, i);
    lemma_blen_min(__t.skip(i));
    lemma_step(${Vec::new}@, __t, i);
    reveal(lex_len); reveal(class_ok); reveal(content_ok); lemma_lits();
    if i < __t.len() { lemma_first_chars(__t.skip(i)); assert(__t.skip(i)[0] == __t[i]); }
}
