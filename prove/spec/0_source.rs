verus! {
/// stands for std's Peekable<vec::IntoIter<Token>>
pub struct TokenSource { d: VecDeque<Token> }
impl View for TokenSource { type V = Seq<Token>; closed spec fn view(&self) -> Seq<Token> { self.d@ } }
impl TokenSource {
    pub fn new(v: Vec<Token>) -> (r: TokenSource)
        ensures r@ == v@,
    { TokenSource { d: all_of(v) } }
    pub fn next(&mut self) -> (r: Option<Token>)
        ensures
            match r {
                Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
    { let r = self.d.pop_front(); proof { if r is Some { assert(self@ =~= old(self)@.drop_first()); } } r }
    pub fn peek(&mut self) -> (r: Option<&Token>)
        ensures
            final(self)@ == old(self)@,
            match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@[0], None => old(self)@.len() == 0 },
    { self.d.front() }
    pub fn next_if<F: FnOnce(&Token) -> bool>(&mut self, f: F) -> (r: Option<Token>)
        requires old(self)@.len() > 0 ==> call_requires(f, (&old(self)@[0],)),
        ensures
            match r {
                Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first() && call_ensures(f, (&old(self)@[0],), true),
                None => final(self)@ == old(self)@ && (old(self)@.len() > 0 ==> call_ensures(f, (&old(self)@[0],), false)),
            },
    {
        let yes = match self.d.front() { Some(x) => f(x), None => false };
        if yes { self.next() } else { None }
    }
}
} // verus!
