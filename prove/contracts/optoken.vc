//# the tokens inside operators and types
@fn BinaryOpt::token
@ensures C15 C16
*r == bin_tok(*self),
@fn BinaryOpt::into_token
@ensures C13
r == bin_tok(self),
@fn UnaryOpt::token
@ensures C15 C16
*r == un_tok(*self),
@fn UnaryOpt::into_token
@ensures C13
r == un_tok(self),
@fn NaryOpt::token
@ensures C15 C16
*r == nary_tok(*self),
@fn NaryOpt::into_token
@ensures C13
r == nary_tok(self),
@fn ASTType::token
@ensures C19
*r == type_tok(*self),
@fn ASTType::into_token
@ensures C19
r == type_tok(self),

