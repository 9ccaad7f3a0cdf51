//# assignments
@fn VariableAssignment::parse
@grammar C11 | p_assign(vvar($1), old(%T)@) | vnode(Node::VariableAssignment(r->Ok_0))
@first
broadcast use group_within;
