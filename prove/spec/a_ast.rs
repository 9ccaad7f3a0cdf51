// Mathematical views of the expression AST, and the token sequence a node was written with.
verus! {

pub struct VarS { pub id: Identifier, pub slots: Seq<VariableAccessSlot> }
pub struct OperandS { pub e: ExprS, pub an: Option<Token> }
pub enum ExprS {
    Bin(BinaryOpt, Box<ExprS>, Option<Token>, Box<ExprS>),
    Un(UnaryOpt, Box<ExprS>),
    Nary(NaryOpt, Seq<OperandS>, Option<Token>),
    Var(VarS),
    Lit(Token),
}

pub open spec fn opt_seq(o: Option<Token>) -> Seq<Token> {
    match o { Some(t) => seq![t], None => Seq::empty() }
}
pub open spec fn bin_tok(o: BinaryOpt) -> Token {
    match o {
        BinaryOpt::EitherOf(t) => t,
        BinaryOpt::WonOf(t) => t,
        BinaryOpt::SumOf(t) => t,
        BinaryOpt::DiffOf(t) => t,
        BinaryOpt::ProduktOf(t) => t,
        BinaryOpt::QuoshuntOf(t) => t,
        BinaryOpt::ModOf(t) => t,
        BinaryOpt::BiggrOf(t) => t,
        BinaryOpt::SmallrOf(t) => t,
        BinaryOpt::BothSaem(t) => t,
        BinaryOpt::BothOf(t) => t,
        BinaryOpt::Diffrint(t) => t,
    }
}
pub open spec fn un_tok(o: UnaryOpt) -> Token { match o { UnaryOpt::Not(t) => t } }
pub open spec fn nary_tok(o: NaryOpt) -> Token {
    match o { NaryOpt::AllOf(t) => t, NaryOpt::Smoosh(t) => t, NaryOpt::AnyOf(t) => t }
}
pub open spec fn type_tok(o: ASTType) -> Token {
    match o {
        ASTType::Bukkit(t) => t,
        ASTType::Numbr(t) => t,
        ASTType::Numbar(t) => t,
        ASTType::Yarn(t) => t,
        ASTType::Troof(t) => t,
        ASTType::Noob(t) => t,
    }
}

// ---- views
pub open spec fn vvar(v: VariableAccess) -> VarS { VarS { id: v.identifier, slots: v.accesses@ } }
pub open spec fn vexpr(e: ASTExpression) -> ExprS
    decreases e
{
    match e {
        ASTExpression::BinaryOperation(b) => ExprS::Bin(b.operator, Box::new(vexpr(*b.left)), b.an_token, Box::new(vexpr(*b.right))),
        ASTExpression::UnaryOperation(u) => ExprS::Un(u.operator, Box::new(vexpr(*u.expression))),
        ASTExpression::NaryOperation(n) => ExprS::Nary(n.operator, vops(n.expressions), n.mkay_token),
        ASTExpression::Value(v) => vvalue(v),
    }
}
pub open spec fn vvalue(v: ASTExpressionValue) -> ExprS {
    match v { ASTExpressionValue::VariableAccess(v) => ExprS::Var(vvar(v)), ASTExpressionValue::LiteralValue(t) => ExprS::Lit(t) }
}
pub open spec fn vop(o: NaryOperationOperand) -> OperandS
    decreases o
{ OperandS { e: vexpr(o.operand), an: o.an_token } }
pub open spec fn vops(v: Vec<NaryOperationOperand>) -> Seq<OperandS>
    decreases v
{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { vop(v@[i]) } else { arbitrary() }) }

// ---- the tokens of a node, in the order in which they were written
pub open spec fn t_ident(i: Identifier) -> Seq<Token> { opt_seq(i.srs) + seq![i.name] }
pub open spec fn t_slot(s: VariableAccessSlot) -> Seq<Token> { seq![s.slot_access_token] + t_ident(s.identifier) }
pub open spec fn t_slots(s: Seq<VariableAccessSlot>, i: int) -> Seq<Token>
    decreases s.len() - i
{
    if 0 <= i < s.len() { t_slot(s[i]) + t_slots(s, i + 1) } else { Seq::empty() }
}
pub open spec fn t_var(v: VarS) -> Seq<Token> { t_ident(v.id) + t_slots(v.slots, 0) }
pub open spec fn t_expr(e: ExprS) -> Seq<Token>
    decreases e, 0int
{
    match e {
        ExprS::Bin(o, l, an, r) => seq![bin_tok(o)] + (t_expr(*l) + (opt_seq(an) + t_expr(*r))),
        ExprS::Un(o, x) => seq![un_tok(o)] + t_expr(*x),
        ExprS::Nary(o, xs, m) => seq![nary_tok(o)] + (t_ops(xs, 0) + opt_seq(m)),
        ExprS::Var(v) => t_var(v),
        ExprS::Lit(t) => seq![t],
    }
}
pub open spec fn t_op(o: OperandS) -> Seq<Token>
    decreases o, 0int
{ t_expr(o.e) + opt_seq(o.an) }
pub open spec fn t_ops(s: Seq<OperandS>, i: int) -> Seq<Token>
    decreases s, s.len() - i
{
    if 0 <= i < s.len() { t_op(s[i]) + t_ops(s, i + 1) } else { Seq::empty() }
}

} // verus!
