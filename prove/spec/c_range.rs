verus! {
pub proof fn lemma_t_slots_last(s: Seq<VariableAccessSlot>, i: int)
    requires 0 <= i
    ensures
        i < s.len() ==> t_slots(s, i).len() > 0 && t_slots(s, i).last() == s.last().identifier.name,
        i >= s.len() ==> t_slots(s, i).len() == 0,
    decreases s.len() - i
{
    if i < s.len() {
        lemma_t_slots_last(s, i + 1);
        assert(t_slot(s[i]).last() == s[i].identifier.name);
    }
}
/// the operands of an n-ary operation, seen through the view
pub proof fn lemma_expr_view(e: ASTExpression)
    ensures match e {
        ASTExpression::NaryOperation(n) => ({
            let v = vops(n.expressions);
            &&& vexpr(e) == ExprS::Nary(n.operator, v, n.mkay_token)
            &&& v.len() == n.expressions@.len()
            &&& v.len() > 0 ==> v.last().e == vexpr(n.expressions@.last().operand) && v.last().an == n.expressions@.last().an_token
        }),
        _ => true,
    }
{
    match e {
        ASTExpression::NaryOperation(n) => {
            let v = vops(n.expressions);
            if v.len() > 0 { assert(v.last() == vop(n.expressions@.last())); }
        }
        _ => {}
    }
}
/// first and last token of an expression, by its last part
pub proof fn lemma_t_expr_ends(e: ExprS)
    ensures
        t_expr(e).len() > 0,
        match e {
            ExprS::Bin(o, l, an, r) => t_expr(e).first() == bin_tok(o) && t_expr(*r).len() > 0 && t_expr(e).last() == t_expr(*r).last(),
            ExprS::Un(o, x) => t_expr(e).first() == un_tok(o) && t_expr(*x).len() > 0 && t_expr(e).last() == t_expr(*x).last(),
            ExprS::Nary(o, xs, m) => t_expr(e).first() == nary_tok(o) && t_expr(e).last() == (match m {
                Some(t) => t,
                None => if xs.len() == 0 { nary_tok(o) } else { match xs.last().an { Some(t) => t, None => t_expr(xs.last().e).last() } }
            }) && (xs.len() > 0 ==> t_expr(xs.last().e).len() > 0),
            _ => true,
        }
    decreases e, 0int
{
    match e {
        ExprS::Bin(o, l, an, r) => { lemma_t_expr_ends(*r); }
        ExprS::Un(o, x) => { lemma_t_expr_ends(*x); }
        ExprS::Nary(o, xs, m) => { lemma_t_ops_last(xs, 0); }
        _ => {}
    }
}
pub proof fn lemma_t_ops_last(s: Seq<OperandS>, i: int)
    requires 0 <= i
    ensures
        i < s.len() ==> t_ops(s, i).len() > 0 && t_expr(s.last().e).len() > 0 && t_ops(s, i).last() == (match s.last().an { Some(t) => t, None => t_expr(s.last().e).last() }),
        i >= s.len() ==> t_ops(s, i).len() == 0,
    decreases s, s.len() - i
{
    if i < s.len() {
        lemma_t_expr_ends(s[i].e);
        lemma_t_ops_last(s, i + 1);
        if i + 1 == s.len() {
            assert(t_ops(s, i + 1) =~= Seq::empty());
            assert(t_ops(s, i) =~= t_op(s[i]));
        } else {
            assert(t_ops(s, i).last() == t_ops(s, i + 1).last());
        }
    }
}
} // verus!
