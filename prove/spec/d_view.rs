// StatementIterator seen as the state of parsing.
verus! {
impl View for StatementIterator {
    type V = St;
    open spec fn view(&self) -> St {
        let s = st_of(self.tokens_iter@, self.current_line);
        match self.peeked {
            Some(Some(t)) => St { cur: seq![t] + s.cur, rest: s.rest },
            _ => s,
        }
    }
}
/// when the iterator has looked ahead and found no token, there is none
pub open spec fn wf(it: StatementIterator) -> bool {
    it.peeked == Some(None::<Token>) ==> stmt(it.tokens_iter@, it.current_line).len() == 0
}

/// `.collect()` on a StatementIterator
pub fn collect_statement(it: &mut StatementIterator) -> (r: VecDeque<Token>)
    requires wf(*old(it)),
    ensures r@ == old(it)@.cur, final(it)@ == (St { cur: Seq::empty(), rest: old(it)@.rest }), wf(*final(it)),
{
    let mut v: VecDeque<Token> = VecDeque::new();
    loop
        invariant_except_break wf(*it), it@.rest == old(it)@.rest, v@ + it@.cur == old(it)@.cur,
        ensures wf(*it), it@ == (St { cur: Seq::empty(), rest: old(it)@.rest }), v@ == old(it)@.cur,
        decreases it@.cur.len(),
    {
        let ghost c = it@.cur;
        match it.next() {
            Some(t) => {
                v.push_back(t);
                proof { assert(c =~= seq![t] + it@.cur); }
                assert(v@ + it@.cur =~= old(it)@.cur);
            }
            None => { assert(v@ =~= old(it)@.cur); assert(it@.cur =~= Seq::empty()); break; }
        }
    }
    v
}

} // verus!
