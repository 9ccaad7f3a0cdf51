// Mathematical views of statements and blocks.
verus! {

pub enum InitS { Expr(ExprS), Type(ASTType) }
pub enum CondS { Til(ExprS), Wile(ExprS) }
pub struct LoopOpS { pub op: LoopOperation, pub var: VarS }
pub struct MebbeS { pub tok: Token, pub cond: ExprS, pub block: Seq<NodeS> }
pub struct BranchS { pub tok: Token, pub block: Seq<NodeS> }
pub enum NodeS {
    Hai(Token, Seq<Token>),
    KThxBye(Token),
    Gtfo(Token),
    FoundYr(Token, ExprS),
    Gimmeh(Token, VarS),
    Visible(Token, Seq<ExprS>, Option<Token>),
    IHasA(Token, Identifier, Option<InitS>),
    IIz(Token, VarS, Seq<ExprS>),
    Assign(VarS, Token, ExprS),
    SlotSet(VarS, Identifier, ExprS),
    Expr(ExprS),
    ImInYr(Token, Token, Option<LoopOpS>, Option<CondS>, Seq<NodeS>, Token),
    HowIzI(Token, Identifier, Seq<Identifier>, Seq<NodeS>),
    ORly(Token, Option<BranchS>, Seq<MebbeS>, Option<BranchS>),
    Wtf(Token, Seq<MebbeS>, Option<BranchS>),
    Error(ErrS),
}

pub open spec fn vexprs(v: VecDeque<ASTExpression>) -> Seq<ExprS> { Seq::new(v@.len(), |i: int| vexpr(v@[i])) }
pub open spec fn vinit(i: Option<IHasAInitialValue>) -> Option<InitS> {
    match i {
        None => None,
        Some(IHasAInitialValue::Expression(e)) => Some(InitS::Expr(vexpr(e))),
        Some(IHasAInitialValue::Type(t)) => Some(InitS::Type(t)),
    }
}
pub open spec fn vcond(c: Option<LoopCondition>) -> Option<CondS> {
    match c {
        None => None,
        Some(LoopCondition::TIL(e)) => Some(CondS::Til(vexpr(e))),
        Some(LoopCondition::WILE(e)) => Some(CondS::Wile(vexpr(e))),
    }
}
pub open spec fn vloopop(o: Option<LoopIterationOperation>) -> Option<LoopOpS> {
    match o { None => None, Some(o) => Some(LoopOpS { op: o.operation, var: vvar(o.operand) }) }
}
pub open spec fn vblock(b: ASTBlock) -> Seq<NodeS>
    decreases b
{ vnodes(b.0) }
pub open spec fn vnodes(b: VecDeque<Node>) -> Seq<NodeS>
    decreases b
{ Seq::new(b@.len(), |i: int| if 0 <= i < b@.len() { vnode(b[i]) } else { arbitrary() }) }
pub open spec fn vmebbe(m: Mebbe) -> MebbeS
    decreases m
{ MebbeS { tok: m.mebbe_token, cond: vexpr(m.condition), block: vblock(m.block) } }
pub open spec fn vmebbes(v: VecDeque<Mebbe>) -> Seq<MebbeS>
    decreases v
{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { vmebbe(v[i]) } else { arbitrary() }) }
pub open spec fn vomg(m: WtfOmg) -> MebbeS
    decreases m
{ MebbeS { tok: m.omg_token, cond: vexpr(m.expression), block: vblock(m.block) } }
pub open spec fn vomgs(v: VecDeque<WtfOmg>) -> Seq<MebbeS>
    decreases v
{ Seq::new(v@.len(), |i: int| if 0 <= i < v@.len() { vomg(v[i]) } else { arbitrary() }) }
pub open spec fn vyarly(b: Option<YaRly>) -> Option<BranchS>
    decreases b
{ match b { None => None, Some(y) => Some(BranchS { tok: y.ya_rly_token, block: vblock(y.block) }) } }
pub open spec fn vnowai(b: Option<NoWai>) -> Option<BranchS>
    decreases b
{ match b { None => None, Some(y) => Some(BranchS { tok: y.no_wai_token, block: vblock(y.block) }) } }
pub open spec fn vomgwtf(b: Option<WtfOmgWtf>) -> Option<BranchS>
    decreases b
{ match b { None => None, Some(y) => Some(BranchS { tok: y.omg_wtf_token, block: vblock(y.block) }) } }
pub open spec fn vnode(n: Node) -> NodeS
    decreases n
{
    match n {
        Node::Hai(x) => NodeS::Hai(x.hai_token, x.version@),
        Node::KThxBye(x) => NodeS::KThxBye(x.k_thx_bye_token),
        Node::Gtfo(x) => NodeS::Gtfo(x.gtfo_token),
        Node::FoundYr(x) => NodeS::FoundYr(x.found_yr_token, vexpr(x.expression)),
        Node::Gimmeh(x) => NodeS::Gimmeh(x.gimmeh_token, vvar(x.variable_access)),
        Node::Visible(x) => NodeS::Visible(x.visible_token, vexprs(x.expressions), x.exclamation_mark),
        Node::IHasA(x) => NodeS::IHasA(x.i_has_a_token, x.identifier, vinit(x.initial_value)),
        Node::IIz(x) => NodeS::IIz(x.i_iz_token, vvar(x.name), vexprs(x.arguments)),
        Node::VariableAssignment(x) => NodeS::Assign(vvar(x.variable_access), x.r_token, vexpr(x.expression)),
        Node::BukkitSetSlot(x) => NodeS::SlotSet(vvar(x.bukkit), x.slot_name, vexpr(x.value)),
        Node::Expression(x) => NodeS::Expr(vexpr(x)),
        Node::ImInYr(x) => NodeS::ImInYr(x.im_in_yr_token, x.label, vloopop(x.on_iteration), vcond(x.condition), vblock(x.code_block), x.end_label),
        Node::HowIzI(x) => NodeS::HowIzI(x.how_iz_i_token, x.name, x.arguments@, vblock(x.body)),
        Node::ORly(x) => NodeS::ORly(x.o_rly_token, vyarly(x.if_true), vmebbes(x.mebbes), vnowai(x.if_false)),
        Node::Wtf(x) => NodeS::Wtf(x.wtf_token, vomgs(x.omg), vomgwtf(x.omg_wtf)),
        Node::ASTError(e) => NodeS::Error(verr(e)),
    }
}
pub broadcast proof fn lemma_vexprs_push(v: VecDeque<ASTExpression>, w: VecDeque<ASTExpression>, x: ASTExpression)
    requires w@ == #[trigger] v@.push(x),
    ensures #[trigger] vexprs(w) == vexprs(v).push(vexpr(x)),
{ assert(vexprs(w) =~= vexprs(v).push(vexpr(x))); }
pub broadcast proof fn lemma_vexprs_empty(v: VecDeque<ASTExpression>)
    requires v@.len() == 0,
    ensures #[trigger] vexprs(v) == Seq::<ExprS>::empty(),
{ assert(vexprs(v) =~= Seq::<ExprS>::empty()); }
pub broadcast proof fn lemma_vnodes_push(v: VecDeque<Node>, w: VecDeque<Node>, x: Node)
    requires w@ == #[trigger] v@.push(x),
    ensures #[trigger] vnodes(w) == vnodes(v).push(vnode(x)),
{ assert(vnodes(w) =~= vnodes(v).push(vnode(x))); }
pub broadcast proof fn lemma_vnodes_empty(v: VecDeque<Node>)
    requires v@.len() == 0,
    ensures #[trigger] vnodes(v) == Seq::<NodeS>::empty(),
{ assert(vnodes(v) =~= Seq::<NodeS>::empty()); }
pub broadcast proof fn lemma_vmebbes_push(v: VecDeque<Mebbe>, w: VecDeque<Mebbe>, x: Mebbe)
    requires w@ == #[trigger] v@.push(x),
    ensures #[trigger] vmebbes(w) == vmebbes(v).push(vmebbe(x)),
{ assert(vmebbes(w) =~= vmebbes(v).push(vmebbe(x))); }
pub broadcast proof fn lemma_vmebbes_empty(v: VecDeque<Mebbe>)
    requires v@.len() == 0,
    ensures #[trigger] vmebbes(v) == Seq::<MebbeS>::empty(),
{ assert(vmebbes(v) =~= Seq::<MebbeS>::empty()); }
pub broadcast proof fn lemma_vomgs_push(v: VecDeque<WtfOmg>, w: VecDeque<WtfOmg>, x: WtfOmg)
    requires w@ == #[trigger] v@.push(x),
    ensures #[trigger] vomgs(w) == vomgs(v).push(vomg(x)),
{ assert(vomgs(w) =~= vomgs(v).push(vomg(x))); }
pub broadcast proof fn lemma_vomgs_empty(v: VecDeque<WtfOmg>)
    requires v@.len() == 0,
    ensures #[trigger] vomgs(v) == Seq::<MebbeS>::empty(),
{ assert(vomgs(v) =~= Seq::<MebbeS>::empty()); }
pub broadcast proof fn lemma_vblock_push(v: ASTBlock, w: ASTBlock, x: Node)
    requires w.0@ == #[trigger] v.0@.push(x),
    ensures #[trigger] vblock(w) == vblock(v).push(vnode(x)),
{ lemma_vnodes_push(v.0, w.0, x); }
pub broadcast proof fn lemma_vblock_empty(v: ASTBlock)
    requires v.0@.len() == 0,
    ensures #[trigger] vblock(v) == Seq::<NodeS>::empty(),
{ lemma_vnodes_empty(v.0); }
pub broadcast group group_views {
    lemma_vops_push, lemma_vops_empty, lemma_vexprs_push, lemma_vexprs_empty, lemma_vblock_push, lemma_vblock_empty,
    lemma_vmebbes_push, lemma_vmebbes_empty, lemma_vomgs_push, lemma_vomgs_empty,
}

} // verus!
