// The two steps, as functions of their arguments.
verus! {
pub uninterp spec fn tokenize_of(code: Seq<char>) -> Result<Vec<Token>, TokenError>;
pub uninterp spec fn parse_of(v: Seq<Token>) -> ASTBlock;
} // verus!
