// What each token iterator still has to yield, and how much work it still has to do.
verus! {

pub open spec fn tail(s: Seq<Token>) -> Seq<Token> { if s.len() > 0 { s.drop_first() } else { s } }
pub broadcast proof fn lemma_tail_cat(a: Seq<Token>, b: Seq<Token>)
    ensures #[trigger] tail(a + b) == (if a.len() > 0 { tail(a) + b } else { tail(b) })
{ if a.len() > 0 { assert((a + b).drop_first() =~= a.drop_first() + b); } else { assert(a + b =~= b); } }
pub broadcast proof fn lemma_tail_one(x: Token)
    ensures #[trigger] tail(seq![x]) == Seq::<Token>::empty()
{ assert(seq![x].drop_first() =~= Seq::<Token>::empty()); }
pub broadcast proof fn lemma_tail_none()
    ensures #[trigger] tail(Seq::<Token>::empty()) == Seq::<Token>::empty()
{ }
pub broadcast proof fn lemma_cat_none(a: Seq<Token>, b: Seq<Token>)
    requires a.len() == 0 || b.len() == 0
    ensures #[trigger] (a + b) == (if a.len() == 0 { b } else { a })
{ if a.len() == 0 { assert(a + b =~= b); } else { assert(a + b =~= a); } }
pub broadcast group group_tail { lemma_tail_cat, lemma_tail_one, lemma_tail_none, lemma_cat_none }
/// the result of one call of next() on an iterator with `rem` left to yield
pub open spec fn yields(r: Option<&Token>, rem: Seq<Token>) -> bool {
    match r { Some(t) => rem.len() > 0 && *t == rem[0], None => rem.len() == 0 }
}

pub open spec fn rem_ident(it: IdentifierTokensIterator) -> Seq<Token> {
    match it.state {
        IdentifierTokensIteratorState::Start => t_ident(*it.identifier),
        IdentifierTokensIteratorState::HasUsedSrs => seq![it.identifier.name],
        IdentifierTokensIteratorState::Done => Seq::empty(),
    }
}
pub open spec fn rem_slot(it: VariableAccessSlotIterator) -> Seq<Token> {
    match it.state {
        VariableAccessSlotIteratorState::Slot => t_slot(*it.access_lot),
        VariableAccessSlotIteratorState::Identifier(i) => rem_ident(i),
        VariableAccessSlotIteratorState::End => Seq::empty(),
    }
}
pub open spec fn rem_var(it: VariableAccessIterator) -> Seq<Token> {
    let slots = it.variable_access.accesses@;
    match it.state {
        VariableAccessTokenIteratorState::Start => t_var(vvar(*it.variable_access)),
        VariableAccessTokenIteratorState::Identifier(i) => rem_ident(i) + t_slots(slots, 0),
        VariableAccessTokenIteratorState::Access((i, o)) => (match o { Some(s) => rem_slot(s), None => Seq::empty() }) + t_slots(slots, i as int),
        VariableAccessTokenIteratorState::Done => Seq::empty(),
    }
}
pub open spec fn work_var(it: VariableAccessIterator) -> int {
    let n = it.variable_access.accesses@.len() as int;
    match it.state {
        VariableAccessTokenIteratorState::Start => n + 4,
        VariableAccessTokenIteratorState::Identifier(i) => n + 3,
        VariableAccessTokenIteratorState::Access((i, o)) => (if i <= n { n - i } else { 0 }) + 1,
        VariableAccessTokenIteratorState::Done => 0,
    }
}
pub open spec fn rem_value(it: ASTExpressionValueIterator) -> Seq<Token> {
    match it.state {
        ASTExpressionValueState::Start => t_expr(vvalue(*it.value)),
        ASTExpressionValueState::VariableAccess(v) => rem_var(v),
        ASTExpressionValueState::End => Seq::empty(),
    }
}
pub open spec fn work_value(it: ASTExpressionValueIterator) -> int {
    match it.state {
        ASTExpressionValueState::Start => 3,
        ASTExpressionValueState::VariableAccess(v) => 2,
        ASTExpressionValueState::End => 0,
    }
}

pub open spec fn rem_expr(it: ASTExpressionIterator) -> Seq<Token>
    decreases it
{
    match it.state {
        ASTExpressionIteratorState::Start => t_expr(vexpr(*it.expression)),
        ASTExpressionIteratorState::Binary(b) => rem_bin(*b),
        ASTExpressionIteratorState::Unary(b) => rem_un(*b),
        ASTExpressionIteratorState::Nary(b) => rem_nary(*b),
        ASTExpressionIteratorState::Value(v) => rem_value(v),
        ASTExpressionIteratorState::End => Seq::empty(),
    }
}
pub open spec fn rem_bin(it: BinaryOperationIterator) -> Seq<Token>
    decreases it
{
    let op = it.operation;
    match it.state {
        BinaryOperationIteratorState::Start => seq![bin_tok(op.operator)] + (t_expr(vexpr(*op.left)) + (opt_seq(op.an_token) + t_expr(vexpr(*op.right)))),
        BinaryOperationIteratorState::Left(i) => rem_expr(i) + (opt_seq(op.an_token) + t_expr(vexpr(*op.right))),
        BinaryOperationIteratorState::AnToken => opt_seq(op.an_token) + t_expr(vexpr(*op.right)),
        BinaryOperationIteratorState::Right(i) => rem_expr(i),
        BinaryOperationIteratorState::End => Seq::empty(),
    }
}
pub open spec fn rem_un(it: UnaryOperationIterator) -> Seq<Token>
    decreases it
{
    match it.state {
        UnaryOperationIteratorState::Start => seq![un_tok(it.operation.operator)] + t_expr(vexpr(*it.operation.expression)),
        UnaryOperationIteratorState::Operand(i) => rem_expr(i),
        UnaryOperationIteratorState::End => Seq::empty(),
    }
}
pub open spec fn rem_nary(it: NaryOperationIterator) -> Seq<Token>
    decreases it
{
    let op = it.operation;
    let ops = vops(op.expressions);
    match it.state {
        NaryOperationIteratorState::Start => seq![nary_tok(op.operator)] + (t_ops(ops, 0) + opt_seq(op.mkay_token)),
        NaryOperationIteratorState::Operand((i, o)) => (match o { Some(x) => rem_op(x), None => Seq::empty() }) + (t_ops(ops, i as int) + opt_seq(op.mkay_token)),
        NaryOperationIteratorState::Mkay => opt_seq(op.mkay_token),
        NaryOperationIteratorState::End => Seq::empty(),
    }
}
pub open spec fn rem_op(it: NaryOperationOperandIterator) -> Seq<Token>
    decreases it
{
    match it.state {
        NaryOperationOperandIteratorState::Expression(i) => rem_expr(i) + opt_seq(it.expression.an_token),
        NaryOperationOperandIteratorState::AnToken => opt_seq(it.expression.an_token),
        NaryOperationOperandIteratorState::End => Seq::empty(),
    }
}

pub open spec fn w_expr(e: ExprS) -> nat
    decreases e, 0int
{
    match e {
        ExprS::Bin(o, l, an, r) => 9 + w_expr(*l) + w_expr(*r),
        ExprS::Un(o, x) => 6 + w_expr(*x),
        ExprS::Nary(o, xs, m) => 7 + w_ops(xs, 0),
        _ => 5,
    }
}
pub open spec fn w_ops(s: Seq<OperandS>, i: int) -> nat
    decreases s, s.len() - i
{
    if 0 <= i < s.len() { 4 + w_expr(s[i].e) + w_ops(s, i + 1) } else { 0 }
}
pub open spec fn work_expr(it: ASTExpressionIterator) -> nat
    decreases it
{
    match it.state {
        ASTExpressionIteratorState::Start => w_expr(vexpr(*it.expression)),
        ASTExpressionIteratorState::Binary(b) => 1 + work_bin(*b),
        ASTExpressionIteratorState::Unary(b) => 1 + work_un(*b),
        ASTExpressionIteratorState::Nary(b) => 1 + work_nary(*b),
        ASTExpressionIteratorState::Value(v) => 1,
        ASTExpressionIteratorState::End => 0,
    }
}
pub open spec fn work_bin(it: BinaryOperationIterator) -> nat
    decreases it
{
    let r = w_expr(vexpr(*it.operation.right));
    match it.state {
        BinaryOperationIteratorState::Start => 5 + w_expr(vexpr(*it.operation.left)) + r,
        BinaryOperationIteratorState::Left(i) => 4 + work_expr(i) + r,
        BinaryOperationIteratorState::AnToken => 3 + r,
        BinaryOperationIteratorState::Right(i) => 2 + work_expr(i),
        BinaryOperationIteratorState::End => 1,
    }
}
pub open spec fn work_un(it: UnaryOperationIterator) -> nat
    decreases it
{
    match it.state {
        UnaryOperationIteratorState::Start => 3 + w_expr(vexpr(*it.operation.expression)),
        UnaryOperationIteratorState::Operand(i) => 2 + work_expr(i),
        UnaryOperationIteratorState::End => 1,
    }
}
pub open spec fn work_nary(it: NaryOperationIterator) -> nat
    decreases it
{
    let ops = vops(it.operation.expressions);
    match it.state {
        NaryOperationIteratorState::Start => 4 + w_ops(ops, 0),
        NaryOperationIteratorState::Operand((i, o)) => 3 + w_ops(ops, i as int) + (match o { Some(x) => work_op(x), None => 0 }),
        NaryOperationIteratorState::Mkay => 2,
        NaryOperationIteratorState::End => 1,
    }
}
pub open spec fn work_op(it: NaryOperationOperandIterator) -> nat
    decreases it
{
    match it.state {
        NaryOperationOperandIteratorState::Expression(i) => 2 + work_expr(i),
        NaryOperationOperandIteratorState::AnToken => 1,
        NaryOperationOperandIteratorState::End => 0,
    }
}
pub open spec fn rem_assign(it: VariableAssignmentIterator) -> Seq<Token> {
    let a = it.variable_assignment;
    let e = t_expr(vexpr(a.expression));
    match it.state {
        VariableAssignmentIteratorState::Start => t_assign(*a),
        VariableAssignmentIteratorState::VariableAccess(i) => rem_var(i) + (seq![a.r_token] + e),
        VariableAssignmentIteratorState::RToken => seq![a.r_token] + e,
        VariableAssignmentIteratorState::Expression(i) => rem_expr(i),
        VariableAssignmentIteratorState::End => Seq::empty(),
    }
}
pub open spec fn t_assign(a: VariableAssignment) -> Seq<Token> {
    t_var(vvar(a.variable_access)) + (seq![a.r_token] + t_expr(vexpr(a.expression)))
}
pub open spec fn work_assign(it: VariableAssignmentIterator) -> int {
    match it.state {
        VariableAssignmentIteratorState::Start => 3,
        VariableAssignmentIteratorState::VariableAccess(i) => 2,
        VariableAssignmentIteratorState::RToken => 1,
        _ => 0,
    }
}

} // verus!
