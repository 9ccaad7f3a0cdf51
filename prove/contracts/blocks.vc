//# blocks (C12, C13) and programs
@fn ASTBlock::default
@ensures C12
r.0@.len() == 0,
@fn LoopOperation::into<Token>
@ensures C13
r == (match self { LoopOperation::UPPIN(t) => t, LoopOperation::NERFIN(t) => t }),
@fn parse_conditional
@grammar C12 | p_loop_cond(old(%T)@) | vcond(r->Ok_0)
@first
broadcast use group_within;
@fn parse_iteration_operation
@grammar C12 | p_loop_op(old(%T)@) | vloopop(r->Ok_0)
@first
broadcast use group_within;
@fn parse_block
@requires
wf(*old(%T)),
forall|t: &Token| call_requires(*$2, (t,)),
@ensures C09 C12 C18
wf(*final(%T)),
forall|k: Stop| #![trigger stops_like(*$2, k)] #![trigger p_block(k, old(%T)@)] stops_like(*$2, k) ==> vblock(r) == p_block(k, old(%T)@).b && final(%T)@ == p_block(k, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 3int,
@first
broadcast use {group_views};
proof { unfold_block_all(%T@); }
@loop 0
invariant_except_break
    wf(*%T),
    forall|t: &Token| call_requires(*$2, (t,)),
    le(%T@, old(%T)@),
    forall|k: Stop| #[trigger] stops_like(*$2, k) ==> p_body(k, vblock(${ASTBlock::default}), %T@) == p_block(k, old(%T)@),
ensures
    wf(*%T),
    forall|k: Stop| #[trigger] stops_like(*$2, k) ==> p_block(k, old(%T)@) == (PB { b: vblock(${ASTBlock::default}), s: %T@ }),
decreases %T@.rest.len(), %T@.cur.len(),
%body
broadcast use {group_views};
proof { lemma_one_le(%T@); unfold_body_all(vblock(${ASTBlock::default}), %T@); }
@fn parse_block_root
@requires
wf(*old(%T)),
@ensures C12
wf(*final(%T)),
vblock(r) == p_block(Stop::Program, old(%T)@).b,
final(%T)@ == p_block(Stop::Program, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 4int,
@fn parse_block_function
@requires
wf(*old(%T)),
@ensures C12
wf(*final(%T)),
vblock(r) == p_block(Stop::Function, old(%T)@).b,
final(%T)@ == p_block(Stop::Function, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 4int,
@fn parse_block_loop
@requires
wf(*old(%T)),
@ensures C12
wf(*final(%T)),
vblock(r) == p_block(Stop::Loop, old(%T)@).b,
final(%T)@ == p_block(Stop::Loop, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 4int,
@fn parse_block_if
@requires
wf(*old(%T)),
@ensures C12
wf(*final(%T)),
vblock(r) == p_block(Stop::If, old(%T)@).b,
final(%T)@ == p_block(Stop::If, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 4int,
@fn parse_block_switch
@requires
wf(*old(%T)),
@ensures C12
wf(*final(%T)),
vblock(r) == p_block(Stop::Switch, old(%T)@).b,
final(%T)@ == p_block(Stop::Switch, old(%T)@).s,
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 4int,
@fn ImInYr::parse
@grammar C12 | p_im_in_yr($1, old(%T)@) | vnode(Node::ImInYr(r->Ok_0))
@first
broadcast use lemma_loop_head_le;
proof { unfold_im_in_yr($1, %T@); }
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 5int,
@fn HowIzI::parse
@grammar C12 | p_how_iz_i($1, old(%T)@) | vnode(Node::HowIzI(r->Ok_0))
@first
broadcast use {group_within, lemma_fn_head_le};
proof { unfold_how_iz_i($1, %T@); }
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 5int,
@loop 0
invariant_except_break
    wf(*%T),
    old(%T)@.cur.len() > 0,
    lt(%T@, old(%T)@),
    p_ident(old(%T)@.cur[0], bump(old(%T)@)).r == Ok::<Identifier, ErrS>(${HowIzI.name or matchtokens.next}),
    p_params(Seq::empty(), p_ident(old(%T)@.cur[0], bump(old(%T)@)).s) == p_params(${HowIzI.arguments or VecDeque::new}@, %T@),
ensures
    wf(*%T),
    old(%T)@.cur.len() > 0,
    lt(%T@, old(%T)@),
    p_ident(old(%T)@.cur[0], bump(old(%T)@)).r == Ok::<Identifier, ErrS>(${HowIzI.name or matchtokens.next}),
    p_params(Seq::empty(), p_ident(old(%T)@.cur[0], bump(old(%T)@)).s) == pok(${HowIzI.arguments or VecDeque::new}@, %T@),
decreases %T@.cur.len(),
%body
broadcast use {group_within, group_le};
proof { unfold_how_iz_i($1, old(%T)@); }
@fn ORly::parse
@grammar C12 | p_o_rly($1, old(%T)@) | vnode(Node::ORly(r->Ok_0))
@first
broadcast use {group_views, group_le, unfold_branch};
proof { unfold_o_rly($1, %T@); }
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 5int,
@loop 0
invariant_except_break
    p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), p_branch(Keywords::YA_RLY, Stop::If, p_question($1, old(%T)@).s).s) == p_cases(Keywords::MEBBE, Stop::If, vmebbes(${ORly.mebbes or VecDeque::new}), %T@),
invariant
    wf(*%T),
    lt(%T@, old(%T)@),
    p_question($1, old(%T)@).r is Ok,
    lt(p_question($1, old(%T)@).s, old(%T)@),
    p_branch(Keywords::YA_RLY, Stop::If, p_question($1, old(%T)@).s).r == Ok::<Option<BranchS>, ErrS>(vyarly(${ORly.if_true or ifletSome})),
    lt(p_branch(Keywords::YA_RLY, Stop::If, p_question($1, old(%T)@).s).s, old(%T)@),
ensures
    p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), p_branch(Keywords::YA_RLY, Stop::If, p_question($1, old(%T)@).s).s) == pok(vmebbes(${ORly.mebbes or VecDeque::new}), %T@),
decreases %T@.rest.len(), %T@.cur.len(),
%body
broadcast use {group_within, group_le, group_views};
proof { unfold_o_rly($1, old(%T)@); unfold_cases(Keywords::MEBBE, Stop::If, vmebbes(${ORly.mebbes or VecDeque::new}), %T@); }
@fn Wtf::parse
@grammar C12 | p_wtf($1, old(%T)@) | vnode(Node::Wtf(r->Ok_0))
@first
broadcast use {group_views, group_le, unfold_branch};
proof { unfold_wtf($1, %T@); }
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 5int,
@loop 0
invariant_except_break
    p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), p_question($1, old(%T)@).s) == p_cases(Keywords::OMG, Stop::Switch, vomgs(${Wtf.omg or VecDeque::new}), %T@),
invariant
    wf(*%T),
    lt(%T@, old(%T)@),
    p_question($1, old(%T)@).r is Ok,
    lt(p_question($1, old(%T)@).s, old(%T)@),
ensures
    p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), p_question($1, old(%T)@).s) == pok(vomgs(${Wtf.omg or VecDeque::new}), %T@),
decreases %T@.rest.len(), %T@.cur.len(),
%body
broadcast use {group_within, group_le, group_views};
proof { unfold_wtf($1, old(%T)@); unfold_cases(Keywords::OMG, Stop::Switch, vomgs(${Wtf.omg or VecDeque::new}), %T@); }
@fn parse_statement
@grammar C11 C12 | p_stmt($1, old(%T)@) | vnode(r->Ok_0)
@first
broadcast use {group_within};
proof { unfold_stmt($1, %T@); }
@decreases
old(%T)@.rest.len(), old(%T)@.cur.len(), 10int,
@fn parse
@ensures C09 C11 C12 C17 C18
vblock(r) == p_program($1@),
@fn Node::from<IHasA>
@from_spec Node::IHasA(v)
@fn Node::from<Hai>
@from_spec Node::Hai(v)
@fn Node::from<ImInYr>
@from_spec Node::ImInYr(v)
@fn Node::from<BukkitSetSlot>
@from_spec Node::BukkitSetSlot(v)
@fn Node::from<VariableAssignment>
@from_spec Node::VariableAssignment(v)
@fn Node::from<Visible>
@from_spec Node::Visible(v)
@fn Node::from<FoundYr>
@from_spec Node::FoundYr(v)
@fn Node::from<Wtf>
@from_spec Node::Wtf(v)
@fn Node::from<ORly>
@from_spec Node::ORly(v)
@fn Node::from<IIz>
@from_spec Node::IIz(v)
@fn Node::from<HowIzI>
@from_spec Node::HowIzI(v)
@fn Node::from<Gtfo>
@from_spec Node::Gtfo(v)
@fn Node::from<Gimmeh>
@from_spec Node::Gimmeh(v)
@fn Node::from<KThxBye>
@from_spec Node::KThxBye(v)
@fn Node::from<ASTExpression>
@from_spec Node::Expression(v)
@fn Node::from<ASTErrorType>
@from_spec Node::ASTError(v)
