//# simple statements (C11, C13)
@fn Gimmeh::parse
@grammar C11 | p_gimmeh($1, old(%T)@) | vnode(Node::Gimmeh(r->Ok_0))
@first
broadcast use group_within;
@fn FoundYr::parse
@grammar C11 | p_found_yr($1, old(%T)@) | vnode(Node::FoundYr(r->Ok_0))
@first
broadcast use group_within;
@fn Hai::parse
@grammar C11 | p_hai($1, old(%T)@) | vnode(Node::Hai(r->Ok_0))
@variant
//# the rest of the statement taken token by token
@loop 0
invariant
    wf(*%T), %T@.rest == old(%T)@.rest, ${VecDeque::new}@ + %T@.cur == old(%T)@.cur,
ensures
    wf(*%T), %T@ == (St { cur: Seq::empty(), rest: old(%T)@.rest }), ${VecDeque::new}@ == old(%T)@.cur,
decreases %T@.cur.len(),
%body
proof { if %T@.cur.len() > 0 { assert(${VecDeque::new}@ + %T@.cur =~= ${VecDeque::new}@.push(%T@.cur[0]) + %T@.cur.drop_first()); } else { assert(${VecDeque::new}@ + %T@.cur =~= ${VecDeque::new}@); assert(%T@.cur =~= Seq::<Token>::empty()); } }
@fn KThxBye::parse
@ensures C11
vnode(Node::KThxBye(r)) == NodeS::KThxBye($1),
@fn Gtfo::parse
@ensures C11
vnode(Node::Gtfo(r)) == NodeS::Gtfo($1),
@fn Visible::parse
@grammar C11 | p_visible($1, Seq::empty(), old(%T)@) | vnode(Node::Visible(r->Ok_0))
@first
broadcast use {group_within, group_views};
@loop 0
invariant_except_break
    wf(*%T),
    p_visible($1, vexprs(${Visible.expressions or VecDeque::new}), %T@) == p_visible($1, Seq::empty(), old(%T)@),
ensures
    wf(*%T),
    %T@.cur.len() == 0 || %T@.cur[0].token_type == TokenType::ExclamationMark,
    p_visible($1, vexprs(${Visible.expressions or VecDeque::new}), %T@) == p_visible($1, Seq::empty(), old(%T)@),
decreases %T@.cur.len(),
%body
broadcast use {group_within, group_views};
@variant
@first
broadcast use {group_within, group_views};
@loop 0
invariant_except_break
    wf(*%T),
    p_visible($1, vexprs(${Visible.expressions or VecDeque::new}), %T@) == p_visible($1, Seq::empty(), old(%T)@),
ensures
    wf(*%T),
    p_visible($1, Seq::empty(), old(%T)@) == pok(NodeS::Visible($1, vexprs(${Visible.expressions or VecDeque::new}), ${Visible.exclamation_mark}), %T@),
decreases %T@.cur.len(),
%body
broadcast use {group_within, group_views};
@fn IHasA::parse
@grammar C11 | p_i_has_a($1, old(%T)@) | vnode(Node::IHasA(r->Ok_0))
@first
broadcast use group_within;
@fn IIz::parse
@grammar C11 | p_i_iz($1, old(%T)@) | vnode(Node::IIz(r->Ok_0))
@first
broadcast use {group_within, group_views};
@loop 0
invariant_except_break
    wf(*%T),
    p_i_iz($1, old(%T)@) == p_args($1, vvar(${IIz.name or matchtokens.next}), vexprs(${IIz.arguments or VecDeque::new}), %T@),
ensures
    wf(*%T),
    p_i_iz($1, old(%T)@) == p_call_end($1, vvar(${IIz.name or matchtokens.next}), vexprs(${IIz.arguments or VecDeque::new}), %T@),
decreases %T@.cur.len(),
%body
broadcast use {group_within, group_views};
@variant
@first
broadcast use {group_within, group_views};
@loop 0
invariant_except_break
    wf(*%T),
    p_i_iz($1, old(%T)@) == (if ${true} { p_args($1, vvar(${IIz.name or matchtokens.next}), vexprs(${IIz.arguments or VecDeque::new}), %T@) }
        else { p_call_end($1, vvar(${IIz.name or matchtokens.next}), vexprs(${IIz.arguments or VecDeque::new}), %T@) }),
ensures
    wf(*%T),
    p_i_iz($1, old(%T)@) == p_call_end($1, vvar(${IIz.name or matchtokens.next}), vexprs(${IIz.arguments or VecDeque::new}), %T@),
decreases %T@.cur.len(),
%body
broadcast use {group_within, group_views};
@fn BukkitSetSlot::parse
@grammar C11 | p_slot_set(vvar($1), old(%T)@) | vnode(Node::BukkitSetSlot(r->Ok_0))
@first
broadcast use group_within;
