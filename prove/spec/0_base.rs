verus! {
/// derived `==` of token kinds (specified and verified variant by variant in what assemble.py makes of the types)
pub open spec fn tt_eq(a: TokenType, b: TokenType) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) }
} // verus!
