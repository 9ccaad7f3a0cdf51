@fn Keywords::to_string_slice
@ensures C07
r@ == kw_text(*self),

@fn Keywords::ToStringSlice__to_string_slice
@ensures C07
r@ =~= kw_text(*self),
@first
proof { lemma_txt(); }

@fn Keywords::iter
@ensures C07
kw_all(r.rest()),
