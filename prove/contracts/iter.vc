//# token iterators (C15)
@fn Identifier::tokens
@ensures C15
rem_ident(r) == t_ident(*self),
@fn IdentifierTokensIterator::new
@ensures C15
rem_ident(r) == t_ident(*$1),
@fn IdentifierTokensIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_ident(*old(self))),
rem_ident(*final(self)) == tail(rem_ident(*old(self))),

@fn VariableAccessSlot::tokens
@ensures C15
rem_slot(r) == t_slot(*self),
@fn VariableAccessSlotIterator::new
@ensures C15
rem_slot(r) == t_slot(*$1),
@fn VariableAccessSlotIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_slot(*old(self))),
rem_slot(*final(self)) == tail(rem_slot(*old(self))),

@fn VariableAccess::tokens
@ensures C15
rem_var(r) == t_var(vvar(*self)),
@fn VariableAccessIterator::new
@ensures C15
rem_var(r) == t_var(vvar(*$1)),
@fn VariableAccessIterator::next
@first
broadcast use group_tail;
proof { lemma_vecdeque_len(self.variable_access.accesses); }
@ensures C15
yields(r, rem_var(*old(self))),
rem_var(*final(self)) == tail(rem_var(*old(self))),
@decreases
work_var(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
proof { lemma_vecdeque_len(self.variable_access.accesses); }
@loop 0
invariant
    rem_var(*self) == rem_var(*old(self)),
    work_var(*self) <= work_var(*old(self)),
decreases work_var(*self),
%body
broadcast use group_tail;
proof { lemma_vecdeque_len(self.variable_access.accesses); }
@fn ASTExpressionValue::tokens
@ensures C15
rem_value(r) == t_expr(vvalue(*self)),
@fn ASTExpressionValueIterator::new
@ensures C15
rem_value(r) == t_expr(vvalue(*$1)),
@fn ASTExpressionValueIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_value(*old(self))),
rem_value(*final(self)) == tail(rem_value(*old(self))),
@decreases
work_value(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_value(*self) == rem_value(*old(self)),
    work_value(*self) <= work_value(*old(self)),
decreases work_value(*self),
%body
broadcast use group_tail;
@fn ASTExpression::tokens
@ensures C15
rem_expr(r) == t_expr(vexpr(*self)),
work_expr(r) == w_expr(vexpr(*self)),
@fn ASTExpressionIterator::new
@ensures C15
rem_expr(r) == t_expr(vexpr(*$1)),
work_expr(r) == w_expr(vexpr(*$1)),
@fn ASTExpressionIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_expr(*old(self))),
rem_expr(*final(self)) == tail(rem_expr(*old(self))),
@decreases
work_expr(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_expr(*self) == rem_expr(*old(self)),
    work_expr(*self) <= work_expr(*old(self)),
decreases work_expr(*self),
%body
broadcast use group_tail;
@fn BinaryOperation::tokens
@ensures C15
rem_bin(r) == t_expr(vexpr(ASTExpression::BinaryOperation(*self))),
1 + work_bin(r) < w_expr(vexpr(ASTExpression::BinaryOperation(*self))),
@fn BinaryOperationIterator::new
@ensures C15
rem_bin(r) == t_expr(vexpr(ASTExpression::BinaryOperation(*$1))),
1 + work_bin(r) < w_expr(vexpr(ASTExpression::BinaryOperation(*$1))),
@fn BinaryOperationIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_bin(*old(self))),
rem_bin(*final(self)) == tail(rem_bin(*old(self))),
@decreases
work_bin(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_bin(*self) == rem_bin(*old(self)),
    work_bin(*self) <= work_bin(*old(self)),
decreases work_bin(*self),
%body
broadcast use group_tail;
@fn UnaryOperation::tokens
@ensures C15
rem_un(r) == t_expr(vexpr(ASTExpression::UnaryOperation(*self))),
1 + work_un(r) < w_expr(vexpr(ASTExpression::UnaryOperation(*self))),
@fn UnaryOperationIterator::new
@ensures C15
rem_un(r) == t_expr(vexpr(ASTExpression::UnaryOperation(*$1))),
1 + work_un(r) < w_expr(vexpr(ASTExpression::UnaryOperation(*$1))),
@fn UnaryOperationIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_un(*old(self))),
rem_un(*final(self)) == tail(rem_un(*old(self))),
@decreases
work_un(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_un(*self) == rem_un(*old(self)),
    work_un(*self) <= work_un(*old(self)),
decreases work_un(*self),
%body
broadcast use group_tail;
@fn NaryOperation::tokens
@ensures C15
rem_nary(r) == t_expr(vexpr(ASTExpression::NaryOperation(*self))),
1 + work_nary(r) < w_expr(vexpr(ASTExpression::NaryOperation(*self))),
@fn NaryOperationIterator::new
@ensures C15
rem_nary(r) == t_expr(vexpr(ASTExpression::NaryOperation(*$1))),
1 + work_nary(r) < w_expr(vexpr(ASTExpression::NaryOperation(*$1))),
@fn NaryOperationIterator::next
@first
broadcast use group_tail;
proof { lemma_vec_len(self.operation.expressions); }
@ensures C15
yields(r, rem_nary(*old(self))),
rem_nary(*final(self)) == tail(rem_nary(*old(self))),
@decreases
work_nary(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
proof { lemma_vec_len(self.operation.expressions); }
@loop 0
invariant
    rem_nary(*self) == rem_nary(*old(self)),
    work_nary(*self) <= work_nary(*old(self)),
decreases work_nary(*self),
%body
broadcast use group_tail;
proof { lemma_vec_len(self.operation.expressions); }
@fn NaryOperationOperand::tokens
@ensures C15
rem_op(r) == t_op(vop(*self)),
work_op(r) < 4 + w_expr(vop(*self).e),
@fn NaryOperationOperandIterator::new
@ensures C15
rem_op(r) == t_op(vop(*$1)),
work_op(r) < 4 + w_expr(vop(*$1).e),
@fn NaryOperationOperandIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_op(*old(self))),
rem_op(*final(self)) == tail(rem_op(*old(self))),
@decreases
work_op(*old(self)),
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_op(*self) == rem_op(*old(self)),
    work_op(*self) <= work_op(*old(self)),
decreases work_op(*self),
%body
broadcast use group_tail;
@fn VariableAssignment::tokens
@ensures C15
rem_assign(r) == t_assign(*self),
@fn VariableAssignmentIterator::new
@ensures C15
rem_assign(r) == t_assign(*$1),
@fn VariableAssignmentIterator::next
@first
broadcast use group_tail;
@ensures C15
yields(r, rem_assign(*old(self))),
rem_assign(*final(self)) == tail(rem_assign(*old(self))),
@decreases
work_assign(*old(self)),

//# ranges (C16)
@variant
//# a loop in place of the recursion
@first
broadcast use group_tail;
@loop 0
invariant
    rem_assign(*self) == rem_assign(*old(self)),
    work_assign(*self) <= work_assign(*old(self)),
decreases work_assign(*self),
%body
broadcast use group_tail;
@fn Identifier::range
@ensures C16
*r.0 == t_ident(*self).first().range.0,
*r.1 == t_ident(*self).last().range.1,
@fn VariableAccess::range
@first
proof { lemma_t_slots_last(self.accesses@, 0); }
@ensures C16
*r.0 == t_var(vvar(*self)).first().range.0,
*r.1 == t_var(vvar(*self)).last().range.1,
@fn ASTExpressionValue::range
@ensures C16
*r.0 == t_expr(vvalue(*self)).first().range.0,
*r.1 == t_expr(vvalue(*self)).last().range.1,
@fn ASTExpression::range
@first
proof {
    lemma_t_expr_ends(vexpr(*self));
    lemma_expr_view(*self);
}
@ensures C16
*r.0 == t_expr(vexpr(*self)).first().range.0,
*r.1 == t_expr(vexpr(*self)).last().range.1,
@decreases
self,
@fn VariableAssignment::range
@ensures C16
*r.0 == t_assign(*self).first().range.0,
*r.1 == t_assign(*self).last().range.1,
