// Properties of whole programs that follow from the contract of `parse` (its block is p_program of the tokens).
verus! {

/// C17: comments never change the AST
pub proof fn theorem_c17(a: Seq<Token>, b: Seq<Token>)
    requires no_comments(a) == no_comments(b),
    ensures p_program(a) == p_program(b), p_program(no_comments(a)) == p_program(a),
{
    let p = |t: Token| !is_comment(t);
    lemma_filter_twice(a, p);
}
pub proof fn lemma_filter_twice(s: Seq<Token>, p: spec_fn(Token) -> bool)
    ensures s.filter(p).filter(p) == s.filter(p),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        lemma_filter_twice(r, p);
        if p(s.last()) {
            let f = r.filter(p);
            assert(s.filter(p) == f.push(s.last()));
            assert(f.push(s.last()).drop_last() =~= f);
        }
    }
}

} // verus!
