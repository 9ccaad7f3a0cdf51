//@broadcast group_push
//@nobroadcast_self
// The lexical rules.
verus! {

pub enum Kind { Ident(Seq<char>), Keyword(Keywords), Symbol(Seq<char>), Int(int), Float(f32), Str(Seq<char>), Bool(bool), Noob, Line(Seq<char>), Multi(Seq<char>), Slot, Ellipsis, Comma, Bang, Quest }
pub open spec fn kind_of(t: TokenType) -> Kind {
    match t {
        TokenType::Identifier(s) => Kind::Ident(s@),
        TokenType::Keyword(k) => Kind::Keyword(k),
        TokenType::Symbol(s) => Kind::Symbol(s@),
        TokenType::Value(TokenValue::Number(NumberToken::Int(i))) => Kind::Int(i as int),
        TokenType::Value(TokenValue::Number(NumberToken::Float(x))) => Kind::Float(x),
        TokenType::Value(TokenValue::String(s)) => Kind::Str(s@),
        TokenType::Value(TokenValue::Boolean(b)) => Kind::Bool(b),
        TokenType::Value(TokenValue::NOOB) => Kind::Noob,
        TokenType::CommentSingleLine(s) => Kind::Line(s@),
        TokenType::CommentMultiLine(s) => Kind::Multi(s@),
        TokenType::BukkitSlotAccess => Kind::Slot,
        TokenType::Ellipsis => Kind::Ellipsis,
        TokenType::Comma => Kind::Comma,
        TokenType::ExclamationMark => Kind::Bang,
        TokenType::QuestionMark => Kind::Quest,
    }
}

// ---- the rules; `r` is the text from a token start on (not empty, no white space first) ----
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' }
/// the length of the white space at the beginning of `r`
pub open spec fn ws_len(r: Seq<char>, i: int) -> int decreases r.len() - i {
    if 0 <= i < r.len() && is_ws(r[i]) { ws_len(r, i + 1) } else { i }
}
/// the end of the line
pub open spec fn line_end(r: Seq<char>) -> int { match find_at(r, seq!['\n'], 0) { Some(k) => k, None => r.len() as int } }
/// the place after the first TLDR
pub open spec fn multi_end(r: Seq<char>) -> int { match find_at(r, kw_text(Keywords::TLDR), 0) { Some(k) => k + kw_text(Keywords::TLDR).len(), None => r.len() as int } }
/// an OBTW without a TLDR after it
pub open spec fn is_unclosed(r: Seq<char>) -> bool {
    r.len() > 0 && !starts_at(r, kw_text(Keywords::BTW)) && starts_at(r, kw_text(Keywords::OBTW)) && find_at(r, kw_text(Keywords::TLDR), 0) is None
}
pub open spec fn ident_len(r: Seq<char>, i: int) -> int decreases r.len() - i {
    if 0 <= i < r.len() && is_letter(r[i]) { ident_len(r, i + 1) } else { i }
}
/// the place of the quote that closes the string, searched from place `i` on
pub open spec fn close_quote(r: Seq<char>, i: int) -> Option<int> decreases r.len() - i {
    if i < 0 || i >= r.len() { None }
    else if r[i] == ':' && i + 1 < r.len() && (r[i + 1] == '"' || r[i + 1] == ':') { close_quote(r, i + 2) }
    else if r[i] == '"' { Some(i) }
    else { close_quote(r, i + 1) }
}
pub open spec fn str_end(r: Seq<char>) -> int { match close_quote(r, 1) { Some(e) => e + 1, None => r.len() as int } }
/// sign, digits and at most one dot: the end of the longest such text and whether it has the dot
pub open spec fn num_end(r: Seq<char>, i: int, dot: bool) -> (int, bool) decreases r.len() - i {
    if 0 <= i < r.len() && ((i == 0 && (r[i] == '-' || r[i] == '+')) || is_digit(r[i])) { num_end(r, i + 1, dot) }
    else if 0 <= i < r.len() && !dot && r[i] == '.' { num_end(r, i + 1, true) }
    else { (i, dot) }
}
pub open spec fn num_text(r: Seq<char>) -> Seq<char> { r.take(num_end(r, 0, false).0) }
#[verifier::opaque]
pub open spec fn is_num(r: Seq<char>) -> bool { if num_end(r, 0, false).1 { has_digit(num_text(r)) } else { int_val(num_text(r)) is Some } }

pub open spec fn p_slot() -> Seq<char> { seq!['\'', 'Z'] }
pub open spec fn p_dots() -> Seq<char> { seq!['.', '.', '.'] }
pub open spec fn kwat(r: Seq<char>, k: Keywords) -> bool { word_at(r, kw_text(k)) }

/// the length of the token at the beginning of `r`
#[verifier::opaque]
pub open spec fn lex_len(r: Seq<char>) -> int {
    if r.len() == 0 { 0 }
    else if r[0] == ',' || r[0] == '!' || r[0] == '?' { 1 }
    else if starts_at(r, kw_text(Keywords::BTW)) { line_end(r) }
    else if starts_at(r, kw_text(Keywords::OBTW)) { multi_end(r) }
    else if starts_at(r, p_slot()) { 2 }
    else if starts_at(r, p_dots()) { 3 }
    else if r[0] == '\u{2026}' { 1 }
    else if kwat(r, Keywords::WIN) { kw_text(Keywords::WIN).len() as int }
    else if kwat(r, Keywords::FAIL) { kw_text(Keywords::FAIL).len() as int }
    else if kwat(r, Keywords::NOOB) { kw_text(Keywords::NOOB).len() as int }
    else if kw_at(r) is Some { kw_text(kw_at(r)->Some_0).len() as int }
    else if is_num(r) { num_end(r, 0, false).0 }
    else if r[0] == '"' { str_end(r) }
    else if is_letter(r[0]) { ident_len(r, 0) }
    else { 1 }
}
/// the kind of the token at the beginning of `r`
#[verifier::opaque]
pub open spec fn class_ok(r: Seq<char>, k: Kind) -> bool {
    if r.len() == 0 { false }
    else if r[0] == ',' { k is Comma }
    else if r[0] == '!' { k is Bang }
    else if r[0] == '?' { k is Quest }
    else if starts_at(r, kw_text(Keywords::BTW)) { k is Line }
    else if starts_at(r, kw_text(Keywords::OBTW)) { k is Multi && !is_unclosed(r) }
    else if starts_at(r, p_slot()) { k is Slot }
    else if starts_at(r, p_dots()) { k is Ellipsis }
    else if r[0] == '\u{2026}' { k is Ellipsis }
    else if kwat(r, Keywords::WIN) { k is Bool }
    else if kwat(r, Keywords::FAIL) { k is Bool }
    else if kwat(r, Keywords::NOOB) { k is Noob }
    else if kw_at(r) is Some { k is Keyword && k->Keyword_0 == kw_at(r)->Some_0 }
    else if is_num(r) { if num_end(r, 0, false).1 { k is Float } else { k is Int } }
    else if r[0] == '"' { k is Str }
    else if is_letter(r[0]) { k is Ident }
    else { k is Symbol }
}
/// what the token of kind `k` whose text is the first `n` characters of `r` carries
#[verifier::opaque]
pub open spec fn content_ok(r: Seq<char>, n: int, k: Kind) -> bool {
    match k {
        Kind::Ident(s) => s == r.take(n),
        Kind::Symbol(s) => s == r.take(n),
        Kind::Keyword(kw) => r.take(n) == kw_text(kw),
        Kind::Int(v) => int_val(r.take(n)) == Some(v),
        Kind::Float(x) => x == float_val(r.take(n)),
        Kind::Str(s) => s == match close_quote(r, 1) { Some(e) => r.subrange(1, e), None => r.skip(1) },
        Kind::Bool(b) => r.take(n) == if b { kw_text(Keywords::WIN) } else { kw_text(Keywords::FAIL) },
        Kind::Line(s) => s == r.subrange(kw_text(Keywords::BTW).len() as int, n),
        Kind::Multi(s) => s == r.subrange(kw_text(Keywords::OBTW).len() as int, n - kw_text(Keywords::TLDR).len()),
        _ => true,
    }
}

// ---- a list of tokens, read from the first `i` characters of `t` ----
pub open spec fn cs(t: Token) -> int { t.range.0.chars as int }
pub open spec fn ce(t: Token) -> int { t.range.1.chars as int }
pub open spec fn tok_covers(t: Token, p: int) -> bool { cs(t) <= p < ce(t) }
/// C02: in order, not empty, on character boundaries, not overlapping; the rest is white space
#[verifier::opaque]
pub open spec fn good_tiles(v: Seq<Token>, t: Seq<char>, i: int) -> bool {
    &&& 0 <= i <= t.len()
    &&& forall|j: int| 0 <= j < v.len() ==> 0 <= cs(#[trigger] v[j]) < ce(v[j]) <= i && v[j].range.0.bytes == blen(t.take(cs(v[j]))) && v[j].range.1.bytes == blen(t.take(ce(v[j])))
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> ce(#[trigger] v[j]) <= cs(#[trigger] v[k])
    &&& forall|p: int| 0 <= p < i && !is_ws(#[trigger] t[p]) ==> exists|j: int| 0 <= j < v.len() && #[trigger] tok_covers(v[j], p)
}
/// C03: both ends of every token are accurate positions
#[verifier::opaque]
pub open spec fn good_positions(v: Seq<Token>, t: Seq<char>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> pv((#[trigger] v[j]).range.0) == pos_at(t, cs(v[j])) && pv(v[j].range.1) == pos_at(t, ce(v[j]))
}
/// C04: the contents are the text
#[verifier::opaque]
pub open spec fn good_content(v: Seq<Token>, t: Seq<char>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> content_ok(t.skip(cs(#[trigger] v[j])), ce(v[j]) - cs(v[j]), kind_of(v[j].token_type))
}
/// C05: kind and length are the ones the rules give
#[verifier::opaque]
pub open spec fn good_class(v: Seq<Token>, t: Seq<char>) -> bool {
    forall|j: int| 0 <= j < v.len() ==> class_ok(t.skip(cs(#[trigger] v[j])), kind_of(v[j].token_type)) && ce(v[j]) - cs(v[j]) == lex_len(t.skip(cs(v[j])))
}
/// C06: the place of the first OBTW without TLDR that starts a token, reading from place `i` on
pub open spec fn lex_fail(t: Seq<char>, i: int) -> Option<int> decreases t.len() - i {
    if i < 0 || i >= t.len() { None }
    else if is_ws(t[i]) { lex_fail(t, i + 1) }
    else if is_unclosed(t.skip(i)) { Some(i) }
    else if lex_len(t.skip(i)) <= 0 || i + lex_len(t.skip(i)) > t.len() { None }
    else { lex_fail(t, i + lex_len(t.skip(i))) }
}

pub proof fn lemma_start(t: Seq<char>)
    ensures good_tiles(Seq::empty(), t, 0), good_positions(Seq::empty(), t), good_content(Seq::empty(), t), good_class(Seq::empty(), t),
        pos_at(t, 0) == (PosV { line: 1, column: 1, bytes: 0, chars: 0 }),
{ reveal(good_tiles); reveal(good_positions); reveal(good_content); reveal(good_class); assert(t.take(0) =~= Seq::<char>::empty()); }
pub proof fn lemma_white(v: Seq<Token>, t: Seq<char>, i: int, j: int)
    requires good_tiles(v, t, i), i <= j <= t.len(), forall|p: int| i <= p < j ==> is_ws(#[trigger] t[p]),
    ensures good_tiles(v, t, j), lex_fail(t, i) == lex_fail(t, j),
    decreases j - i,
{
    reveal(good_tiles);
    if i < j {
        assert(good_tiles(v, t, i + 1)) by {
            assert forall|p: int| 0 <= p < i + 1 && !is_ws(#[trigger] t[p]) implies exists|j: int| 0 <= j < v.len() && #[trigger] tok_covers(v[j], p) by { assert(p < i); }
        }
        lemma_white(v, t, i + 1, j);
    }
}
pub broadcast proof fn lemma_push_tiles(v: Seq<Token>, k: Token, t: Seq<char>, i: int, j: int)
    requires #[trigger] good_tiles(v, t, i), 0 <= i < j <= t.len(), cs(k) == i, ce(k) == j, k.range.0.bytes == blen(t.take(i)), k.range.1.bytes == blen(t.take(j)),
    ensures #[trigger] good_tiles(v.push(k), t, j),
{
    reveal(good_tiles);
    let w = v.push(k);
    assert forall|x: int| 0 <= x < w.len() implies 0 <= cs(#[trigger] w[x]) < ce(w[x]) <= j && w[x].range.0.bytes == blen(t.take(cs(w[x]))) && w[x].range.1.bytes == blen(t.take(ce(w[x]))) by {
        if x < v.len() { assert(w[x] == v[x]); } else { assert(w[x] == k); }
    }
    assert forall|x: int, y: int| 0 <= x < y < w.len() implies ce(#[trigger] w[x]) <= cs(#[trigger] w[y]) by {
        assert(w[x] == v[x]);
        if y < v.len() { assert(w[y] == v[y]); } else { assert(w[y] == k); }
    }
    assert forall|p: int| 0 <= p < j && !is_ws(#[trigger] t[p]) implies exists|x: int| 0 <= x < w.len() && #[trigger] tok_covers(w[x], p) by {
        if p < i { let x = choose|x: int| 0 <= x < v.len() && #[trigger] tok_covers(v[x], p); assert(tok_covers(w[x], p)); } else { assert(tok_covers(w[v.len() as int], p)); }
    }
}
pub broadcast proof fn lemma_push_positions(v: Seq<Token>, k: Token, t: Seq<char>)
    requires good_positions(v, t), pv(k.range.0) == pos_at(t, cs(k)), pv(k.range.1) == pos_at(t, ce(k)),
    ensures #[trigger] good_positions(v.push(k), t),
{ reveal(good_positions); }
pub broadcast proof fn lemma_push_content(v: Seq<Token>, k: Token, t: Seq<char>)
    requires good_content(v, t), content_ok(t.skip(cs(k)), ce(k) - cs(k), kind_of(k.token_type)),
    ensures #[trigger] good_content(v.push(k), t),
{ reveal(good_content); }
pub broadcast proof fn lemma_push_class(v: Seq<Token>, k: Token, t: Seq<char>)
    requires good_class(v, t), class_ok(t.skip(cs(k)), kind_of(k.token_type)), ce(k) - cs(k) == lex_len(t.skip(cs(k))),
    ensures #[trigger] good_class(v.push(k), t),
{ reveal(good_class); }
pub broadcast group group_push { lemma_raw, lemma_push_tiles, lemma_push_positions, lemma_push_content, lemma_push_class }

// ---- scanning loops ----
pub proof fn lemma_ws_len(r: Seq<char>, i: int)
    requires 0 <= i <= r.len(),
    ensures i <= ws_len(r, i) <= r.len(), forall|p: int| i <= p < ws_len(r, i) ==> is_ws(#[trigger] r[p]), ws_len(r, i) < r.len() ==> !is_ws(r[ws_len(r, i)]),
    decreases r.len() - i,
{ if i < r.len() && is_ws(r[i]) { lemma_ws_len(r, i + 1); } }
pub proof fn lemma_ident_len(r: Seq<char>, i: int)
    requires 0 <= i <= r.len(),
    ensures i <= ident_len(r, i) <= r.len(), forall|p: int| i <= p < ident_len(r, i) ==> is_letter(#[trigger] r[p]),
    decreases r.len() - i,
{ if i < r.len() && is_letter(r[i]) { lemma_ident_len(r, i + 1); } }
pub proof fn lemma_close_quote(r: Seq<char>, i: int)
    requires 0 <= i,
    ensures match close_quote(r, i) { Some(e) => i <= e < r.len() && r[e] == '"', None => true },
    decreases r.len() - i,
{ if i < r.len() { if r[i] == ':' && i + 1 < r.len() && (r[i + 1] == '"' || r[i + 1] == ':') { lemma_close_quote(r, i + 2) } else if r[i] == '"' {} else { lemma_close_quote(r, i + 1) } } }

/// a sign, digits and, if `dot`, the dot at place `dp`
pub open spec fn num_prefix(r: Seq<char>, n: int, dot: bool, dp: int) -> bool {
    &&& 0 <= n <= r.len()
    &&& (dot ==> 0 <= dp < n && r[dp] == '.')
    &&& forall|j: int| 0 <= j < n ==> is_digit(#[trigger] r[j]) || (j == 0 && (r[j] == '-' || r[j] == '+')) || (dot && j == dp)
}
pub proof fn lemma_num_prefix(r: Seq<char>, i: int, dot: bool, dp: int) -> (q: int)
    requires num_prefix(r, i, dot, dp),
    ensures num_prefix(r, num_end(r, i, dot).0, num_end(r, i, dot).1, q),
    decreases r.len() - i,
{
    if i < r.len() && ((i == 0 && (r[i] == '-' || r[i] == '+')) || is_digit(r[i])) { lemma_num_prefix(r, i + 1, dot, dp) }
    else if i < r.len() && !dot && r[i] == '.' { lemma_num_prefix(r, i + 1, true, i) }
    else { dp }
}
pub proof fn lemma_num_end(r: Seq<char>)
    ensures ({ let (e, d) = num_end(r, 0, false); 0 <= e <= r.len() && ascii(r.take(e)) && (d ==> exists|dot: int| #[trigger] dotted(r.take(e), dot)) && (e == 0 ==> !is_num(r)) }),
{
    let (e, d) = num_end(r, 0, false);
    let dp = lemma_num_prefix(r, 0, false, 0);
    let s = r.take(e);
    assert forall|i: int| 0 <= i < s.len() implies clen(#[trigger] s[i]) == 1 by { assert(s[i] == r[i]); }
    if d {
        assert(s[dp] == '.');
        assert forall|j: int| 0 <= j < s.len() && j != dp implies is_digit(#[trigger] s[j]) || (j == 0 && (s[j] == '-' || s[j] == '+')) by { assert(s[j] == r[j]); }
        assert(dotted(s, dp));
    }
    if e == 0 { reveal(is_num); assert(s =~= Seq::<char>::empty()); }
}
pub proof fn lemma_ws_ascii(r: Seq<char>)
    ensures ascii(r.take(ws_len(r, 0))),
{ lemma_ws_len(r, 0); assert forall|i: int| 0 <= i < r.take(ws_len(r, 0)).len() implies clen(#[trigger] r.take(ws_len(r, 0))[i]) == 1 by { assert(is_ws(r[i])); } }
pub proof fn lemma_ident_ascii(r: Seq<char>)
    ensures ascii(r.take(ident_len(r, 0))),
{ lemma_ident_len(r, 0); assert forall|i: int| 0 <= i < r.take(ident_len(r, 0)).len() implies clen(#[trigger] r.take(ident_len(r, 0))[i]) == 1 by { assert(is_letter(r[i])); } }
/// the text up to place k + 1, from the text up to place k
pub proof fn lemma_char(r: Seq<char>, k: int)
    requires 0 <= k <= r.len(),
    ensures k < r.len() ==> blen(r.take(k + 1)) == blen(r.take(k)) + clen(r[k]) && newlines(r.take(k + 1)) == newlines(r.take(k)) + (if r[k] == '\n' { 1int } else { 0 })
            && tail_bytes(r.take(k + 1)) == (if r[k] == '\n' { 0 } else { tail_bytes(r.take(k)) + clen(r[k]) })
            && r.skip(k)[0] == r[k] && r.skip(k).skip(1) == r.skip(k + 1) && blen(r.take(k + 1)) <= blen(r),
        k + 1 < r.len() ==> r.skip(k + 1)[0] == r[k + 1], k + 2 <= r.len() ==> blen(r.take(k + 2)) == blen(r.take(k + 1)) + clen(r[k + 1]) && r.skip(k + 1).skip(1) == r.skip(k + 2),
{
    if k < r.len() {
        assert(r.take(k + 1).drop_last() =~= r.take(k));
        assert(r.take(k + 1).last() == r[k]);
        assert(r.skip(k).skip(1) =~= r.skip(k + 1));
        lemma_cidx(r, k + 1);
    }
    if k + 1 < r.len() {
        assert(r.take(k + 2).drop_last() =~= r.take(k + 1));
        assert(r.take(k + 2).last() == r[k + 1]);
        assert(r.skip(k + 1).skip(1) =~= r.skip(k + 2));
    }
}
pub proof fn lemma_quotes(r: Seq<char>)
    ensures r.len() > 0 ==> bnd(r, clen(r[0])) && cidx(r, clen(r[0])) == 1 && r.skip(0)[0] == r[0] && r.take(1).len() == 1 && blen(r.take(1)) == clen(r[0]),
{ if r.len() > 0 { lemma_char(r, 0); lemma_cidx(r, 1); assert(blen(r.take(0)) == 0); assert(r.skip(0) =~= r); } }
pub proof fn lemma_first(r: Seq<char>)
    ensures r.len() > 0 ==> bnd(r, clen(r[0])) && cidx(r, clen(r[0])) == 1,
{ lemma_quotes(r); }
pub proof fn lemma_first_is(r: Seq<char>, c: char)
    ensures starts_at(r, seq![c]) <==> (r.len() > 0 && r[0] == c),
{ if starts_at(r, seq![c]) { assert(r.take(1)[0] == r[0]); assert(seq![c][0] == c); } else if r.len() > 0 && r[0] == c { assert(r.take(1) =~= seq![c]); } }
/// both ways to write an ellipsis
pub proof fn lemma_ellipsis_texts()
    ensures "..."@ == p_dots(), blen("..."@) == 3, "\u{2026}"@ == seq!['\u{2026}'], blen("\u{2026}"@) == 3,
{
    reveal_strlit("..."); reveal_strlit("\u{2026}");
    assert("..."@ =~= p_dots()); assert("\u{2026}"@ =~= seq!['\u{2026}']);
    lemma_blen_one('\u{2026}');
    assert(ascii(p_dots())); lemma_blen_ascii(p_dots());
}
pub proof fn lemma_ascii2(r: Seq<char>)
    requires starts_at(r, p_slot()),
    ensures ascii(r.take(2)),
{ let w = p_slot(); assert(w.len() == 2); assert(r.take(2)[0] == w[0]); assert(r.take(2)[1] == w[1]); }
pub proof fn lemma_ascii3(r: Seq<char>)
    requires starts_at(r, p_dots()),
    ensures ascii(r.take(3)),
{ let w = p_dots(); assert(w.len() == 3); assert(r.take(3)[0] == w[0]); assert(r.take(3)[1] == w[1]); assert(r.take(3)[2] == w[2]); }
/// comments: where they end
/// a comment cut off the text first, its keyword cut off it afterwards
pub proof fn lemma_raw_comment(r: Seq<char>, e: int)
    requires starts_at(r, kw_text(Keywords::BTW)), kw_text(Keywords::BTW).len() <= e <= r.len(),
    ensures r.subrange(0, e) == r.take(e), starts_at(r.subrange(0, e), kw_text(Keywords::BTW)),
        r.subrange(0, e).skip(kw_text(Keywords::BTW).len() as int) == r.subrange(kw_text(Keywords::BTW).len() as int, e),
{
    let n = kw_text(Keywords::BTW).len() as int;
    assert(r.subrange(0, e) =~= r.take(e));
    assert(r.subrange(0, e).take(n) =~= r.take(n));
    assert(r.subrange(0, e).skip(n) =~= r.subrange(n, e));
}
/// the same search in the text after a prefix
pub proof fn lemma_find_rest(r: Seq<char>, p: Seq<char>, w: Seq<char>)
    requires starts_at(r, p), find_at(r, w, 0) is Some ==> find_at(r, w, 0)->Some_0 >= p.len(),
    ensures
        match find_at(r, w, 0) {
            Some(k) => find_at(r.skip(p.len() as int), w, 0) == Some(k - p.len()) && p.len() <= k <= r.len()
                && blen(r.take(k)) == blen(p) + blen(r.skip(p.len() as int).take(k - p.len()))
                && r.skip(p.len() as int).subrange(0, k - p.len()) == r.subrange(p.len() as int, k)
                && r.skip(p.len() as int).take(k - p.len()) == r.subrange(p.len() as int, k),
            None => find_at(r.skip(p.len() as int), w, 0) is None,
        },
        blen(r) == blen(p) + blen(r.skip(p.len() as int)),
        r.skip(p.len() as int).subrange(0, r.len() - p.len()) == r.skip(p.len() as int),
        r.subrange(p.len() as int, r.len() as int) == r.skip(p.len() as int),
{
    let n = p.len() as int;
    let q = r.skip(n);
    lemma_find_at(r, w, 0);
    lemma_find_at(q, w, 0);
    lemma_blen_split(r, n);
    assert(q.subrange(0, r.len() - n) =~= q);
    assert(r.subrange(n, r.len() as int) =~= q);
    assert forall|j: int| 0 <= j <= q.len() implies #[trigger] q.skip(j) == r.skip(n + j) by { assert(q.skip(j) =~= r.skip(n + j)); }
    if find_at(q, w, 0) is Some { let j = find_at(q, w, 0)->Some_0; assert(q.skip(j) == r.skip(n + j)); }
    if find_at(r, w, 0) is Some {
        let k = find_at(r, w, 0)->Some_0;
        assert(q.skip(k - n) == r.skip(k));
        if find_at(q, w, 0) is Some { let j = find_at(q, w, 0)->Some_0; assert(!(j < k - n)) by { if j < k - n { assert(starts_at(r.skip(n + j), w)); } } }
        assert(q.take(k - n) =~= r.subrange(n, k));
        assert(q.subrange(0, k - n) =~= r.subrange(n, k));
        assert(r.take(k) =~= p + q.take(k - n)) by { assert(r.take(k).take(n) =~= r.take(n)); assert(r.take(k) =~= r.take(n) + r.subrange(n, k)); }
        lemma_blen_add(p, q.take(k - n));
    }
}
pub proof fn lemma_comment(r: Seq<char>)
    ensures
        starts_at(r, kw_text(Keywords::BTW)) ==> 3 == kw_text(Keywords::BTW).len() <= line_end(r) <= r.len(),
        starts_at(r, kw_text(Keywords::OBTW)) ==> 4 == kw_text(Keywords::OBTW).len() && (find_at(r, kw_text(Keywords::TLDR), 0) is Some ==> 4 <= find_at(r, kw_text(Keywords::TLDR), 0)->Some_0 && multi_end(r) <= r.len()),
        kw_text(Keywords::TLDR).len() == 4, blen(kw_text(Keywords::TLDR)) == 4, blen(kw_text(Keywords::OBTW)) == 4, blen(kw_text(Keywords::BTW)) == 3,
        starts_at(r, kw_text(Keywords::BTW)) ==> 3 <= blen(r.take(line_end(r))) <= blen(r),
        starts_at(r, kw_text(Keywords::OBTW)) && find_at(r, kw_text(Keywords::TLDR), 0) is Some ==> 4 <= blen(r.take(find_at(r, kw_text(Keywords::TLDR), 0)->Some_0)) && blen(r.take(find_at(r, kw_text(Keywords::TLDR), 0)->Some_0)) + 4 <= blen(r),
{
    lemma_txt();
    assert(ascii(kw_text(Keywords::BTW))); lemma_blen_ascii(kw_text(Keywords::BTW));
    assert(ascii(kw_text(Keywords::OBTW))); lemma_blen_ascii(kw_text(Keywords::OBTW));
    assert(ascii(kw_text(Keywords::TLDR))); lemma_blen_ascii(kw_text(Keywords::TLDR));
    lemma_find(r, seq!['\n']);
    lemma_find(r, kw_text(Keywords::TLDR));
    lemma_cidx_full(r);
    assert(r.take(r.len() as int) =~= r);
    if starts_at(r, kw_text(Keywords::BTW)) {
        let w = kw_text(Keywords::BTW);
        assert(r.take(3)[0] == r[0] == 'B' && r.take(3)[1] == r[1] == 'T' && r.take(3)[2] == r[2] == 'W');
        if find_at(r, seq!['\n'], 0) is Some {
            let k = find_at(r, seq!['\n'], 0)->Some_0;
            assert(r.skip(k).take(1)[0] == r[k]);
            assert(seq!['\n'][0] == '\n');
            lemma_cidx(r, k);
        }
    }
    if starts_at(r, kw_text(Keywords::OBTW)) {
        let w = kw_text(Keywords::OBTW);
        assert(r.take(4)[0] == r[0] == 'O' && r.take(4)[1] == r[1] == 'B' && r.take(4)[2] == r[2] == 'T' && r.take(4)[3] == r[3] == 'W');
        if find_at(r, kw_text(Keywords::TLDR), 0) is Some {
            let k = find_at(r, kw_text(Keywords::TLDR), 0)->Some_0;
            let w = r.skip(k).take(4);
            assert(w[0] == r[k] == 'T' && w[1] == r[k + 1] == 'L');
            lemma_cidx(r, k);
            lemma_cidx(r, k + 4);
            lemma_blen_mono(r, 4, k);
            lemma_cidx(r, 4);
        }
    }
}

pub open spec fn err_range(e: TokenError) -> Range { match e { TokenError::UnclosedMultilineComment(r) => r } }
pub open spec fn err_positions(e: TokenError, t: Seq<char>) -> bool {
    let r = err_range(e);
    &&& 0 <= r.0.chars <= t.len() && 0 <= r.1.chars <= t.len()
    &&& pv(r.0) == pos_at(t, r.0.chars as int) && pv(r.1) == pos_at(t, r.1.chars as int)
}
pub open spec fn err_place(e: TokenError, i: Option<int>, n: int) -> bool { i == Some(err_range(e).0.chars as int) && err_range(e).1.chars == n }
/// what reading `raw` at place `i` leads to
pub broadcast proof fn lemma_raw(t: Seq<char>, i: int, raw: Seq<char>)
    requires 0 <= i <= t.len(), #[trigger] starts_at(t.skip(i), raw),
    ensures
        i + raw.len() <= t.len(), raw == t.skip(i).take(raw.len() as int), blen(raw) <= blen(t.skip(i)),
        advance(pos_at(t, i), raw) == pos_at(t, i + raw.len()), t.skip(i).skip(raw.len() as int) == t.skip(i + raw.len()),
{
    assert(t.skip(i).take(raw.len() as int) =~= t.subrange(i, i + raw.len()));
    lemma_advance(t, i, i + raw.len());
    assert(t.skip(i).skip(raw.len() as int) =~= t.skip(i + raw.len()));
    lemma_cidx_prefix(t.skip(i), raw);
}
/// one turn of the tokenizer's loop: white space, or the rest of the text
pub proof fn lemma_step(v: Seq<Token>, t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures ({ let w = ws_len(t.skip(i), 0); let r = t.skip(i); {
        &&& 0 <= w <= r.len()
        &&& advance(pos_at(t, i), r.take(w)) == pos_at(t, i + w)
        &&& advance(pos_at(t, i), r) == pos_at(t, t.len() as int)
        &&& (good_tiles(v, t, i) ==> good_tiles(v, t, i + w))
        &&& lex_fail(t, i) == lex_fail(t, i + w)
        &&& r.skip(w) == t.skip(i + w)
        &&& blen(r.take(w)) <= blen(r)
        &&& (r.len() > 0 && w == 0 ==> !is_ws(r[0]))
    }}),
{
    let r = t.skip(i);
    let w = ws_len(r, 0);
    lemma_ws_len(r, 0);
    assert(r.take(w) =~= t.subrange(i, i + w));
    lemma_advance(t, i, i + w);
    assert(r =~= t.subrange(i, t.len() as int));
    lemma_advance(t, i, t.len() as int);
    assert(r.skip(w) =~= t.skip(i + w));
    lemma_blen_split(r, w);
    lemma_blen_min(r.skip(w));
    assert forall|p: int| i <= p < i + w implies is_ws(#[trigger] t[p]) by { assert(t[p] == r[p - i]); }
    if good_tiles(v, t, i) { lemma_white(v, t, i, i + w); }
    lemma_white_fail(t, i, i + w);
}
pub proof fn lemma_white_fail(t: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), forall|p: int| i <= p < j ==> is_ws(#[trigger] t[p]),
    ensures lex_fail(t, i) == lex_fail(t, j),
    decreases j - i,
{ if i < j { lemma_white_fail(t, i + 1, j); } }
pub proof fn lemma_first_chars(r: Seq<char>)
    requires r.len() > 0,
    ensures
        starts_at(r, seq![',']) <==> r[0] == ',', starts_at(r, seq!['!']) <==> r[0] == '!', starts_at(r, seq!['?']) <==> r[0] == '?',
        bnd(r, clen(r[0])), cidx(r, clen(r[0])) == 1, starts_at(r, r.take(1)), r.take(1).len() == 1,
        r.subrange(0, 1) == r.take(1),
        ident_len(r, 0) > 0 <==> is_letter(r[0]),
        is_unclosed(r) ==> r[0] == 'O' && r[0] != ',' && r[0] != '!' && r[0] != '?',
{
    lemma_ident_len(r, 0); if is_letter(r[0]) { lemma_ident_len(r, 1); }
    reveal(txt_OBTW); if is_unclosed(r) { assert(r.take(4)[0] == kw_text(Keywords::OBTW)[0]); }
    lemma_first_is(r, ','); lemma_first_is(r, '!'); lemma_first_is(r, '?'); lemma_first(r);
    assert(r.take(1).take(1) =~= r.take(1)); assert(r.subrange(0, 1) =~= r.take(1));
}
pub proof fn lemma_lits()
    ensures clen(',') == 1, clen('!') == 1, clen('?') == 1,
{}

} // verus!
