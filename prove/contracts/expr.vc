//# expressions (C10, C13)
@fn Identifier::parse
@first
broadcast use group_within;
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_ident($1, old($2)@).s,
@ensures C10 C11
p_ident($1, old($2)@).r is Ok ==> r is Ok && r->Ok_0 == p_ident($1, old($2)@).r->Ok_0,
@ensures C13
p_ident($1, old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_ident($1, old($2)@).r->Err_0,
@fn VariableAccess::parse
@first
broadcast use group_within;
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_var($1, old($2)@).s,
@ensures C10 C11
p_var($1, old($2)@).r is Ok ==> r is Ok && vvar(r->Ok_0) == p_var($1, old($2)@).r->Ok_0,
@ensures C13
p_var($1, old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_var($1, old($2)@).r->Err_0,
@loop 0
invariant_except_break
    wf(*$2),
    p_slots(${VariableAccess.identifier or Identifier::parse}, ${VariableAccess.accesses or VecDeque::new}@, $2@) == p_var($1, old($2)@),
ensures
    wf(*$2),
    p_var($1, old($2)@) == pok(VarS { id: ${VariableAccess.identifier or Identifier::parse}, slots: ${VariableAccess.accesses or VecDeque::new}@ }, $2@),
decreases $2@.cur.len(),
@fn BinaryOperation::parse
@first
broadcast use group_within;
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_bin($1, old($2)@).s,
@ensures C10
p_bin($1, old($2)@).r is Ok ==> r is Ok && vexpr(r->Ok_0) == p_bin($1, old($2)@).r->Ok_0,
@ensures C13
p_bin($1, old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_bin($1, old($2)@).r->Err_0,
@decreases
old($2)@.cur.len(), 0int,
@fn UnaryOperation::parse
@first
broadcast use group_within;
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_un($1, old($2)@).s,
@ensures C10
p_un($1, old($2)@).r is Ok ==> r is Ok && vexpr(r->Ok_0) == p_un($1, old($2)@).r->Ok_0,
@ensures C13
p_un($1, old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_un($1, old($2)@).r->Err_0,
@decreases
old($2)@.cur.len(), 0int,
@fn NaryOperation::parse
@first
broadcast use {group_within, lemma_vops_push, lemma_vops_empty};
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_nary($1, Seq::empty(), old($2)@).s,
@ensures C10
p_nary($1, Seq::empty(), old($2)@).r is Ok ==> r is Ok && vexpr(r->Ok_0) == p_nary($1, Seq::empty(), old($2)@).r->Ok_0,
@ensures C13
p_nary($1, Seq::empty(), old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_nary($1, Seq::empty(), old($2)@).r->Err_0,
@decreases
old($2)@.cur.len(), 0int,
@loop 0
invariant_except_break
    wf(*$2),
    p_nary($1, vops(${NaryOperation.expressions or Vec::new}), $2@) == p_nary($1, Seq::empty(), old($2)@),
    $2@.cur.len() <= old($2)@.cur.len(),
ensures
    wf(*$2),
    $2@.cur.len() == 0 || is_kw($2@.cur[0], Keywords::MKAY),
    p_nary($1, vops(${NaryOperation.expressions or Vec::new}), $2@) == p_nary($1, Seq::empty(), old($2)@),
decreases $2@.cur.len(),
%body
broadcast use {group_within, lemma_vops_push, lemma_vops_empty};
@variant
@first
broadcast use {group_within, lemma_vops_push, lemma_vops_empty};
@loop 0
invariant_except_break
    wf(*$2),
    ${None} is None,
    p_nary($1, vops(${NaryOperation.expressions or Vec::new}), $2@) == p_nary($1, Seq::empty(), old($2)@),
    $2@.cur.len() <= old($2)@.cur.len(),
ensures
    wf(*$2),
    p_nary($1, Seq::empty(), old($2)@) == pok(ExprS::Nary($1, vops(${NaryOperation.expressions or Vec::new}), ${None}), $2@),
decreases $2@.cur.len(),
%body
broadcast use {group_within, lemma_vops_push, lemma_vops_empty};
@fn ASTExpression::parse
@first
broadcast use group_within;
@requires
wf(*old($2)),
@ensures C09
wf(*final($2)),
final($2)@ == p_expr($1, old($2)@).s,
@ensures C10
p_expr($1, old($2)@).r is Ok ==> r is Ok && vexpr(r->Ok_0) == p_expr($1, old($2)@).r->Ok_0,
@ensures C13
p_expr($1, old($2)@).r is Err ==> r is Err && verr(r->Err_0) == p_expr($1, old($2)@).r->Err_0,
@decreases
old($2)@.cur.len(), 1int,
@fn VariableAccess::last_token
@ensures C13
r == last_name(vvar(self)),
@fn VariableAccess::is_valid
@ensures C11
r == starts_var(*$1),
@fn ASTType::try_from<Token>
@ensures C11
type_of($1) is Some ==> r is Ok && r->Ok_0 == type_of($1)->Some_0,
@ensures C11 C10
type_of($1) is None ==> r is Err && r->Err_0 == $1,
@fn ASTExpressionValue::try_from<Token>
@ensures C10
$1.token_type is Value ==> r is Ok && r->Ok_0 == ASTExpressionValue::LiteralValue($1),
!($1.token_type is Value) ==> r is Err,
@fn ASTExpressionValue::from<VariableAccess>
@from_spec ASTExpressionValue::VariableAccess(v)
@fn ASTExpression::from<BinaryOperation>
@from_spec ASTExpression::BinaryOperation(v)
@fn ASTExpression::from<UnaryOperation>
@from_spec ASTExpression::UnaryOperation(v)
@fn ASTExpression::from<NaryOperation>
@from_spec ASTExpression::NaryOperation(v)
@fn ASTErrorType::from<VariableAssignmentError>
@from_spec ASTErrorType::VariableAssignment(v)
@fn ASTErrorType::from<ExpressionError>
@from_spec ASTErrorType::Expression(v)
@fn ASTErrorType::from<HowIsIError>
@from_spec ASTErrorType::HowIsI(v)
@fn ASTErrorType::from<ImInYrError>
@from_spec ASTErrorType::ImInYr(v)
@fn ASTErrorType::from<IIzError>
@from_spec ASTErrorType::IIz(v)
@fn ASTErrorType::from<ORlyError>
@from_spec ASTErrorType::ORly(v)
@fn ASTErrorType::from<IHasAError>
@from_spec ASTErrorType::IHasA(v)
