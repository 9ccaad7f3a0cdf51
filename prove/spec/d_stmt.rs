// How a token list falls into statements (C09), and the view of the statement iterator.
verus! {

pub open spec fn is_comment(t: Token) -> bool {
    match t.token_type { TokenType::CommentSingleLine(_) => true, TokenType::CommentMultiLine(_) => true, _ => false }
}
pub open spec fn is_comma(t: Token) -> bool { t.token_type == TokenType::Comma }
pub open spec fn is_ellipsis(t: Token) -> bool { t.token_type == TokenType::Ellipsis }
pub open spec fn is_separator(t: Token) -> bool { is_comma(t) || is_ellipsis(t) }
pub open spec fn start_line(t: Token) -> i32 { t.range.0.line }
pub open spec fn end_line(t: Token) -> i32 { t.range.1.line }
/// the line a statement goes on at after an ellipsis
pub open spec fn joined_line(rest: Seq<Token>, line: i32) -> i32 { if rest.len() > 0 { start_line(rest[0]) } else { line } }

/// the tokens of the statement that continues on `line` with `raw`
pub open spec fn stmt(raw: Seq<Token>, line: i32) -> Seq<Token>
    decreases raw.len()
{
    if raw.len() == 0 || is_comma(raw[0]) || start_line(raw[0]) != line { Seq::empty() }
    else if is_ellipsis(raw[0]) { stmt(raw.drop_first(), joined_line(raw.drop_first(), line)) }
    else { seq![raw[0]] + stmt(raw.drop_first(), end_line(raw[0])) }
}
/// the tokens after that statement
pub open spec fn after(raw: Seq<Token>, line: i32) -> Seq<Token>
    decreases raw.len()
{
    if raw.len() == 0 || is_comma(raw[0]) || start_line(raw[0]) != line { raw }
    else if is_ellipsis(raw[0]) { after(raw.drop_first(), joined_line(raw.drop_first(), line)) }
    else { after(raw.drop_first(), end_line(raw[0])) }
}
pub open spec fn skip_separators(raw: Seq<Token>) -> Seq<Token>
    decreases raw.len()
{
    if raw.len() > 0 && is_separator(raw[0]) { skip_separators(raw.drop_first()) } else { raw }
}
/// the line the first token is on
pub open spec fn first_line(raw: Seq<Token>) -> i32 { if raw.len() > 0 { start_line(raw[0]) } else { 0 } }
/// all the statements of `raw`
pub open spec fn split(raw: Seq<Token>) -> Seq<Seq<Token>>
    decreases raw.len()
{
    let s = skip_separators(raw);
    let a = after(s, first_line(s));
    if s.len() == 0 || a.len() >= raw.len() { Seq::empty() }
    else { seq![stmt(s, first_line(s))] + split(a) }
}
pub proof fn lemma_after_len(raw: Seq<Token>, line: i32)
    ensures after(raw, line).len() <= raw.len(), stmt(raw, line).len() + after(raw, line).len() <= raw.len(),
    decreases raw.len()
{
    if raw.len() == 0 || is_comma(raw[0]) || start_line(raw[0]) != line { }
    else if is_ellipsis(raw[0]) { lemma_after_len(raw.drop_first(), joined_line(raw.drop_first(), line)); }
    else { lemma_after_len(raw.drop_first(), end_line(raw[0])); }
}
pub proof fn lemma_skip_len(raw: Seq<Token>)
    ensures skip_separators(raw).len() <= raw.len(), skip_separators(raw).len() > 0 ==> !is_separator(skip_separators(raw)[0]),
    decreases raw.len()
{
    if raw.len() > 0 && is_separator(raw[0]) { lemma_skip_len(raw.drop_first()); }
}
pub broadcast proof fn lemma_bump_push(t: Token, c: Seq<Token>)
    ensures #![trigger seq![t] + c] (seq![t] + c).drop_first() == c, (seq![t] + c)[0] == t,
{ assert((seq![t] + c).drop_first() =~= c); }
pub broadcast proof fn lemma_cons_bump(c: Seq<Token>)
    requires c.len() > 0,
    ensures #![trigger c.drop_first()] seq![c[0]] + c.drop_first() == c,
{ assert(seq![c[0]] + c.drop_first() =~= c); }
/// one step of split
pub proof fn lemma_split(raw: Seq<Token>)
    ensures
        ({
            let s = skip_separators(raw);
            let l = first_line(s);
            &&& s.len() == 0 ==> split(raw).len() == 0
            &&& s.len() > 0 ==> stmt(s, l).len() > 0 && split(raw) == seq![stmt(s, l)] + split(after(s, l))
        }),
{
    let s = skip_separators(raw);
    lemma_skip_len(raw);
    if s.len() > 0 { lemma_after_len(s.drop_first(), end_line(s[0])); }
}

pub proof fn lemma_no_stmt()
    ensures forall|raw: Seq<Token>, line: i32| stmt(raw, line).len() == 0 ==> #[trigger] split(after(raw, line)) == split(raw),
{
    assert forall|raw: Seq<Token>, line: i32| stmt(raw, line).len() == 0 implies #[trigger] split(after(raw, line)) == split(raw) by {
        lemma_no_stmt_1(raw, line);
        lemma_split(raw);
        lemma_split(after(raw, line));
        if skip_separators(raw).len() == 0 { assert(split(raw) =~= split(after(raw, line))); }
    }
}
pub proof fn lemma_no_stmt_1(raw: Seq<Token>, line: i32)
    requires stmt(raw, line).len() == 0,
    ensures skip_separators(after(raw, line)) == skip_separators(raw),
    decreases raw.len()
{
    if raw.len() == 0 || is_comma(raw[0]) || start_line(raw[0]) != line { }
    else if is_ellipsis(raw[0]) { lemma_no_stmt_1(raw.drop_first(), joined_line(raw.drop_first(), line)); }
}

/// what parsing sees: the rest of the current statement, and the statements after it
pub struct St { pub cur: Seq<Token>, pub rest: Seq<Seq<Token>> }
pub open spec fn head(s: St) -> Option<Token> { if s.cur.len() > 0 { Some(s.cur[0]) } else { None } }
pub open spec fn bump(s: St) -> St { if s.cur.len() > 0 { St { cur: s.cur.drop_first(), rest: s.rest } } else { s } }
pub open spec fn next_st(s: St) -> St {
    if s.rest.len() > 0 { St { cur: s.rest[0], rest: s.rest.drop_first() } } else { St { cur: Seq::empty(), rest: s.rest } }
}
pub open spec fn st_of(raw: Seq<Token>, line: i32) -> St { St { cur: stmt(raw, line), rest: split(after(raw, line)) } }
/// the tokens of a list without its comments
pub open spec fn no_comments(s: Seq<Token>) -> Seq<Token> { s.filter(|t: Token| !is_comment(t)) }
pub proof fn lemma_no_comments_first(s: Seq<Token>)
    requires s.len() > 0,
    ensures no_comments(s) == (if is_comment(s[0]) { Seq::empty() } else { seq![s[0]] }) + no_comments(s.drop_first()),
{
    let p = |t: Token| !is_comment(t);
    let a = seq![s[0]];
    assert(s =~= a + s.drop_first());
    Seq::filter_distributes_over_add(a, s.drop_first(), p);
    reveal_with_fuel(Seq::filter, 2);
    assert(a.drop_last() =~= Seq::<Token>::empty());
    assert(a.filter(p) =~= (if is_comment(s[0]) { Seq::<Token>::empty() } else { seq![s[0]] }));
}
pub open spec fn start_st(tokens: Seq<Token>) -> St { st_of(no_comments(tokens), first_line(no_comments(tokens))) }

} // verus!
