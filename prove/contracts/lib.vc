//# C20.  tokenize and parse are known here only as two functions of their arguments (they are
//# deterministic: safe code without globals, I/O or interior mutability); what they compute is
//# the business of lexer.vc and of the parser contracts.
@fn tokenize
@trusted deterministic; its own contract is proved in the checks of C01-C07
@ensures C20
r == tokenize_of($1@),

@fn parse
@trusted deterministic; its own contract is proved in the checks of C08-C13
@ensures C20
r == parse_of($1@),

@fn tokenize_and_parse
@safety C20
@ensures C20
r == match tokenize_of($1@) { Ok(v) => Ok::<ASTBlock, TokenError>(parse_of(v@)), Err(e) => Err(e) },
