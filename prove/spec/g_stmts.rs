// The grammar of statements (C11), blocks (C12) and the errors of malformed ones (C13), over the
// statements a program was split into.  Written from the property statements.
verus! {

pub open spec fn is_type(t: Token) -> bool { type_of(t) is Some }
/// GIMMEH variable
pub open spec fn p_gimmeh(t: Token, s: St) -> PR<NodeS> {
    if s.cur.len() == 0 { perr(ASTErrorType::MissingToken(t), s) }
    else {
        let v = p_var(s.cur[0], bump(s));
        match v.r { Ok(x) => pok(NodeS::Gimmeh(t, x), v.s), Err(e) => PR { r: Err(e), s: v.s } }
    }
}
/// FOUND YR expression
pub open spec fn p_found_yr(t: Token, s: St) -> PR<NodeS> {
    if s.cur.len() == 0 { perr(ASTErrorType::MissingToken(t), s) }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r { Ok(e) => pok(NodeS::FoundYr(t, e), x.s), Err(e) => PR { r: Err(e), s: x.s } }
    }
}
/// HAI, and the rest of the statement as its version
pub open spec fn p_hai(t: Token, s: St) -> PR<NodeS> { pok(NodeS::Hai(t, s.cur), St { cur: Seq::empty(), rest: s.rest }) }
/// VISIBLE { expression } [!]
pub open spec fn p_visible(t: Token, acc: Seq<ExprS>, s: St) -> PR<NodeS>
    decreases s.cur.len()
{
    if s.cur.len() == 0 { pok(NodeS::Visible(t, acc, None), s) }
    else if s.cur[0].token_type == TokenType::ExclamationMark { pok(NodeS::Visible(t, acc, Some(s.cur[0])), bump(s)) }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r {
            Err(e) => PR { r: Err(e), s: x.s },
            Ok(e) => if x.s.cur.len() >= s.cur.len() { arbitrary() } else { p_visible(t, acc.push(e), x.s) },
        }
    }
}
/// I HAS A identifier [ITZ (type | expression)]
pub open spec fn p_i_has_a(t: Token, s: St) -> PR<NodeS> {
    if s.cur.len() == 0 { perr(ASTErrorType::IHasA(IHasAError::MissingIdentifier(t)), s) }
    else if !starts_var(s.cur[0]) { perr(ASTErrorType::IHasA(IHasAError::InvalidIdentifier(s.cur[0])), bump(s)) }
    else {
        let i = p_ident(s.cur[0], bump(s));
        match i.r {
            Err(e) => PR { r: Err(e), s: i.s },
            Ok(id) =>
                if i.s.cur.len() == 0 { pok(NodeS::IHasA(t, id, None), i.s) }
                else {
                    let itz = i.s.cur[0];
                    let s2 = bump(i.s);
                    if !is_kw(itz, Keywords::ITZ) { perr(ASTErrorType::UnexpectedToken(itz), s2) }
                    else if s2.cur.len() == 0 { perr(ASTErrorType::IHasA(IHasAError::ExpectedInitialValue(itz)), s2) }
                    else {
                        match type_of(s2.cur[0]) {
                            Some(ty) => pok(NodeS::IHasA(t, id, Some(InitS::Type(ty))), bump(s2)),
                            None => {
                                let x = p_expr(s2.cur[0], bump(s2));
                                match x.r {
                                    Err(e) => PR { r: Err(e), s: x.s },
                                    Ok(e) => pok(NodeS::IHasA(t, id, Some(InitS::Expr(e))), x.s),
                                }
                            }
                        }
                    }
                }
        }
    }
}
/// I IZ variable [YR expression {AN YR expression}] MKAY
pub open spec fn p_args(t: Token, name: VarS, acc: Seq<ExprS>, s: St) -> PR<NodeS>
    decreases s.cur.len()
{
    if !at_kw(s, Keywords::YR) { p_call_end(t, name, acc, s) }
    else if s.cur.len() == 1 { perr(ASTErrorType::IIz(IIzError::MissingArgument(s.cur[0])), bump(s)) }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r {
            Err(e) => PR { r: Err(e), s: x.s },
            Ok(e) =>
                if !at_kw(x.s, Keywords::AN) { p_call_end(t, name, acc.push(e), x.s) }
                else if x.s.cur.len() >= s.cur.len() { arbitrary() }
                else { p_args(t, name, acc.push(e), bump(x.s)) }
        }
    }
}
pub open spec fn p_call_end(t: Token, name: VarS, args: Seq<ExprS>, s: St) -> PR<NodeS> {
    if s.cur.len() == 0 { perr(ASTErrorType::IIz(IIzError::MissingMkay(t)), s) }
    else if is_kw(s.cur[0], Keywords::MKAY) { pok(NodeS::IIz(t, name, args), bump(s)) }
    else { perr(ASTErrorType::IIz(IIzError::MissingMkay(s.cur[0])), bump(s)) }
}
pub open spec fn p_i_iz(t: Token, s: St) -> PR<NodeS> {
    if s.cur.len() == 0 { perr(ASTErrorType::IIz(IIzError::MissingName(t)), s) }
    else {
        let v = p_var(s.cur[0], bump(s));
        match v.r { Err(e) => PR { r: Err(e), s: v.s }, Ok(x) => p_args(t, x, Seq::empty(), v.s) }
    }
}
/// variable R expression, the variable already taken
pub open spec fn p_assign(v: VarS, s: St) -> PR<NodeS> {
    if !at_kw(s, Keywords::R) { perr(ASTErrorType::VariableAssignment(VariableAssignmentError::MissingR(last_name(v))), bump(s)) }
    else if s.cur.len() == 1 { perr(ASTErrorType::VariableAssignment(VariableAssignmentError::ExpectedValue(s.cur[0])), bump(s)) }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r { Ok(e) => pok(NodeS::Assign(v, s.cur[0], e), x.s), Err(e) => PR { r: Err(e), s: x.s } }
    }
}
/// variable HAS A identifier ITZ expression, the variable already taken and the HAS A seen
pub open spec fn p_slot_set(v: VarS, s: St) -> PR<NodeS> {
    if !at_kw(s, Keywords::HAS_A) { perr(ASTErrorType::UnexpectedToken(last_name(v)), bump(s)) }
    else if s.cur.len() == 1 { perr(ASTErrorType::VariableAssignment(VariableAssignmentError::ExpectedValue(s.cur[0])), bump(s)) }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r {
            Err(e) => PR { r: Err(e), s: i.s },
            Ok(id) =>
                if i.s.cur.len() == 0 { perr(ASTErrorType::MissingToken(id.name), i.s) }
                else {
                    let itz = i.s.cur[0];
                    let s2 = bump(i.s);
                    if !is_kw(itz, Keywords::ITZ) { perr(ASTErrorType::UnexpectedToken(itz), s2) }
                    else if s2.cur.len() == 0 { perr(ASTErrorType::MissingToken(itz), s2) }
                    else {
                        let x = p_expr(s2.cur[0], bump(s2));
                        match x.r { Ok(e) => pok(NodeS::SlotSet(v, id, e), x.s), Err(e) => PR { r: Err(e), s: x.s } }
                    }
                }
        }
    }
}
/// a statement that begins with a variable
pub open spec fn p_var_stmt(t: Token, s: St) -> PR<NodeS> {
    let v = p_var(t, s);
    match v.r {
        Err(e) => PR { r: Err(e), s: v.s },
        Ok(x) =>
            if v.s.cur.len() == 0 { pok(NodeS::Expr(ExprS::Var(x)), v.s) }
            else if at_kw(v.s, Keywords::HAS_A) { p_slot_set(x, v.s) }
            else { p_assign(x, v.s) }
    }
}
pub open spec fn p_bare(t: Token, s: St) -> PR<NodeS> {
    let x = p_expr(t, s);
    match x.r { Ok(e) => pok(NodeS::Expr(e), x.s), Err(e) => PR { r: Err(e), s: x.s } }
}

// ---- blocks
/// the end of a statement that opens or continues a block
pub open spec fn p_end(s: St) -> PR<()> {
    if s.cur.len() == 0 { pok((), next_st(s)) } else { PR { r: Err(ErrS::TooMany(s.cur)), s: St { cur: Seq::empty(), rest: s.rest } } }
}
/// the statement that closes a block opened by `t`
pub open spec fn p_close(t: Token, k: Keywords, s: St) -> PR<()> {
    if s.cur.len() == 0 { perr(ASTErrorType::MissingBlockClosingToken(t), s) }
    else if is_kw(s.cur[0], k) { pok((), bump(s)) }
    else { perr(ASTErrorType::UnexpectedToken(s.cur[0]), bump(s)) }
}
/// the question mark of O RLY? and WTF?, and the end of that statement
pub open spec fn p_question(t: Token, s: St) -> PR<()> {
    if s.cur.len() > 0 && is_question(s.cur[0]) { p_end(bump(s)) }
    else { perr(ASTErrorType::ORly(ORlyError::MissingQuestionMark(t)), bump(s)) }
}
pub open spec fn is_question(t: Token) -> bool {
    match t.token_type { TokenType::QuestionMark => true, TokenType::Symbol(x) => x@ == "?"@, _ => false }
}
/// loop header parts
pub open spec fn loop_op(t: Token) -> Option<LoopOperation> {
    match t.token_type {
        TokenType::Keyword(k) => match k { Keywords::UPPIN => Some(LoopOperation::UPPIN(t)), Keywords::NERFIN => Some(LoopOperation::NERFIN(t)), _ => None },
        _ => None,
    }
}
pub open spec fn im_in_yr(e: ImInYrError) -> ASTErrorType { ASTErrorType::ImInYr(e) }
/// [UPPIN|NERFIN YR variable]
pub open spec fn p_loop_op(s: St) -> PR<Option<LoopOpS>> {
    if s.cur.len() == 0 { pok(None, s) }
    else {
        match loop_op(s.cur[0]) {
            None => pok(None, s),
            Some(op) =>
                if s.cur.len() == 1 { perr(im_in_yr(ImInYrError::MissingOperand(s.cur[0])), bump(s)) }
                else if !is_kw(s.cur[1], Keywords::YR) { perr(im_in_yr(ImInYrError::MissingYr(s.cur[1])), bump(bump(s))) }
                else if s.cur.len() == 2 { perr(im_in_yr(ImInYrError::MissingOperand(s.cur[0])), bump(bump(s))) }
                else {
                    let v = p_var(s.cur[2], bump(bump(bump(s))));
                    match v.r { Ok(x) => pok(Some(LoopOpS { op, var: x }), v.s), Err(e) => PR { r: Err(e), s: v.s } }
                }
        }
    }
}
/// [TIL|WILE expression]
pub open spec fn p_loop_cond(s: St) -> PR<Option<CondS>> {
    if !at_kw(s, Keywords::TIL) && !at_kw(s, Keywords::WILE) { pok(None, s) }
    else if s.cur.len() == 1 { perr(im_in_yr(ImInYrError::MissingConditionalExpression(s.cur[0])), bump(s)) }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r {
            Ok(e) => pok(Some(if at_kw(s, Keywords::TIL) { CondS::Til(e) } else { CondS::Wile(e) }), x.s),
            Err(e) => PR { r: Err(e), s: x.s },
        }
    }
}
/// the parameters of a function: [YR identifier {AN YR identifier}]
pub open spec fn p_params(acc: Seq<Identifier>, s: St) -> PR<Seq<Identifier>>
    decreases s.cur.len()
{
    if !at_kw(s, Keywords::YR) { pok(acc, s) }
    else if s.cur.len() == 1 { perr(ASTErrorType::MissingToken(s.cur[0]), bump(s)) }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r {
            Err(e) => PR { r: Err(e), s: i.s },
            Ok(id) =>
                if !at_kw(i.s, Keywords::AN) { pok(acc.push(id), i.s) }
                else if i.s.cur.len() >= s.cur.len() { arbitrary() }
                else { p_params(acc.push(id), bump(i.s)) }
        }
    }
}

/// which tokens end a block at the start of a statement
pub enum Stop { Program, Function, Loop, If, Switch }
pub open spec fn stop(k: Stop, t: Token) -> bool {
    match k {
        Stop::Program => false,
        Stop::Function => is_kw(t, Keywords::IF_U_SAY_SO),
        Stop::Loop => is_kw(t, Keywords::IM_OUTTA_YR),
        Stop::If => is_kw(t, Keywords::YA_RLY) || is_kw(t, Keywords::MEBBE) || is_kw(t, Keywords::NO_WAI) || is_kw(t, Keywords::OIC),
        Stop::Switch => is_kw(t, Keywords::OMG) || is_kw(t, Keywords::OMGWTF) || is_kw(t, Keywords::OIC),
    }
}
pub open spec fn stops(k: Stop, s: St) -> bool { s.cur.len() > 0 && stop(k, s.cur[0]) }
/// a closure that decides where a block of kind k ends
pub open spec fn stops_like<F: Fn(&Token) -> bool>(f: F, k: Stop) -> bool {
    forall|t: &Token, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == stop(k, *t)
}
/// how much input is left
pub open spec fn lt(a: St, b: St) -> bool { a.rest.len() < b.rest.len() || (a.rest.len() == b.rest.len() && a.cur.len() < b.cur.len()) }
pub open spec fn le(a: St, b: St) -> bool { a.rest.len() < b.rest.len() || (a.rest.len() == b.rest.len() && a.cur.len() <= b.cur.len()) }

pub struct PB { pub b: Seq<NodeS>, pub s: St }
/// a block: the statements up to one that begins with a closing keyword of the block
#[verifier::opaque]
pub open spec fn p_block(k: Stop, s: St) -> PB
    decreases s.rest.len(), s.cur.len(), 3int
{
    if stops(k, s) { PB { b: Seq::empty(), s } } else { p_body(k, Seq::empty(), s) }
}
/// the nodes of one statement, given how it parsed: its node, and an error for the tokens left over in it
pub open spec fn one_nodes(p: PR<NodeS>) -> Seq<NodeS> {
    let n = match p.r { Ok(n) => n, Err(e) => NodeS::Error(e) };
    if p.s.cur.len() > 0 { seq![n, NodeS::Error(ErrS::TooMany(p.s.cur))] } else { seq![n] }
}
/// one statement of a block, and what follows it
#[verifier::opaque]
pub open spec fn p_one(s: St) -> PB
    decreases s.rest.len(), s.cur.len(), 1int
{
    if s.cur.len() == 0 { PB { b: Seq::empty(), s: next_st(s) } }
    else { let p = p_stmt(s.cur[0], bump(s)); PB { b: one_nodes(p), s: next_st(p.s) } }
}
#[verifier::opaque]
pub open spec fn p_body(k: Stop, acc: Seq<NodeS>, s: St) -> PB
    decreases s.rest.len(), s.cur.len(), 2int
{
    let p = p_one(s);
    let b = acc + p.b;
    if p.s.cur.len() == 0 || stops(k, p.s) { PB { b, s: p.s } }
    else if !lt(p.s, s) { arbitrary() }
    else { p_body(k, b, p.s) }
}
/// a statement that is not a block, its first token already taken
pub open spec fn p_simple(t: Token, s: St) -> PR<NodeS> {
    if starts_var(t) { p_var_stmt(t, s) }
    else if is_kw(t, Keywords::I_HAS_A) { p_i_has_a(t, s) }
    else if is_kw(t, Keywords::VISIBLE) { p_visible(t, Seq::empty(), s) }
    else if is_kw(t, Keywords::GIMMEH) { p_gimmeh(t, s) }
    else if is_kw(t, Keywords::FOUND_YR) { p_found_yr(t, s) }
    else if is_kw(t, Keywords::HAI) { p_hai(t, s) }
    else if is_kw(t, Keywords::KTHXBYE) { pok(NodeS::KThxBye(t), s) }
    else if is_kw(t, Keywords::GTFO) { pok(NodeS::Gtfo(t), s) }
    else if is_kw(t, Keywords::I_IZ) { p_i_iz(t, s) }
    else { p_bare(t, s) }
}
/// a statement, its first token already taken
#[verifier::opaque]
pub open spec fn p_stmt(t: Token, s: St) -> PR<NodeS>
    decreases s.rest.len(), s.cur.len(), 10int
{
    if is_kw(t, Keywords::IM_IN_YR) { p_im_in_yr(t, s) }
    else if is_kw(t, Keywords::HOW_IZ_I) { p_how_iz_i(t, s) }
    else if is_kw(t, Keywords::WTF) { p_wtf(t, s) }
    else if is_kw(t, Keywords::O_RLY) { p_o_rly(t, s) }
    else { p_simple(t, s) }
}
/// IM IN YR label [operation] [condition] / block / IM OUTTA YR label
pub struct LoopHead { pub label: Token, pub op: Option<LoopOpS>, pub cond: Option<CondS> }
pub open spec fn p_loop_head(t: Token, s: St) -> PR<LoopHead> {
    if s.cur.len() == 0 { perr(im_in_yr(ImInYrError::MissingStartLabel(t)), s) }
    else if !is_name(s.cur[0]) { perr(im_in_yr(ImInYrError::InvalidStartLabel(s.cur[0])), bump(s)) }
    else {
        let o = p_loop_op(bump(s));
        match o.r {
            Err(e) => PR { r: Err(e), s: o.s },
            Ok(op) => {
                let c = p_loop_cond(o.s);
                match c.r {
                    Err(e) => PR { r: Err(e), s: c.s },
                    Ok(cond) => {
                        let n = p_end(c.s);
                        match n.r { Err(e) => PR { r: Err(e), s: n.s }, Ok(_) => pok(LoopHead { label: s.cur[0], op, cond }, n.s) }
                    }
                }
            }
        }
    }
}
pub open spec fn p_loop_tail(t: Token, h: LoopHead, b: PB) -> PR<NodeS> {
    if b.s.cur.len() == 0 { perr(im_in_yr(ImInYrError::MissingImOuttaYr(t)), b.s) }
    else if b.s.cur.len() == 1 { perr(im_in_yr(ImInYrError::MissingEndLabel(b.s.cur[0])), bump(b.s)) }
    else if !is_name(b.s.cur[1]) { perr(im_in_yr(ImInYrError::InvalidEndLabel(b.s.cur[1])), bump(bump(b.s))) }
    else { pok(NodeS::ImInYr(t, h.label, h.op, h.cond, b.b, b.s.cur[1]), bump(bump(b.s))) }
}
#[verifier::opaque]
pub open spec fn p_im_in_yr(t: Token, s: St) -> PR<NodeS>
    decreases s.rest.len(), s.cur.len(), 5int
{
    let h = p_loop_head(t, s);
    match h.r {
        Err(e) => PR { r: Err(e), s: h.s },
        Ok(x) => if !lt(h.s, s) { arbitrary() } else { p_loop_tail(t, x, p_block(Stop::Loop, h.s)) },
    }
}
/// HOW IZ I identifier [parameters] / block / IF U SAY SO
pub struct FnHead { pub name: Identifier, pub args: Seq<Identifier> }
pub open spec fn p_fn_head(t: Token, s: St) -> PR<FnHead> {
    if s.cur.len() == 0 { perr(ASTErrorType::HowIsI(HowIsIError::MissingNameIdentifier(t)), s) }
    else {
        let i = p_ident(s.cur[0], bump(s));
        match i.r {
            Err(e) => PR { r: Err(e), s: i.s },
            Ok(name) => {
                let a = p_params(Seq::empty(), i.s);
                match a.r {
                    Err(e) => PR { r: Err(e), s: a.s },
                    Ok(args) => {
                        let n = p_end(a.s);
                        match n.r { Err(e) => PR { r: Err(e), s: n.s }, Ok(_) => pok(FnHead { name, args }, n.s) }
                    }
                }
            }
        }
    }
}
pub open spec fn p_fn_tail(t: Token, h: FnHead, b: PB) -> PR<NodeS> {
    let c = p_close(t, Keywords::IF_U_SAY_SO, b.s);
    match c.r { Err(e) => PR { r: Err(e), s: c.s }, Ok(_) => pok(NodeS::HowIzI(t, h.name, h.args, b.b), c.s) }
}
#[verifier::opaque]
pub open spec fn p_how_iz_i(t: Token, s: St) -> PR<NodeS>
    decreases s.rest.len(), s.cur.len(), 5int
{
    let h = p_fn_head(t, s);
    match h.r {
        Err(e) => PR { r: Err(e), s: h.s },
        Ok(x) => if !lt(h.s, s) { arbitrary() } else { p_fn_tail(t, x, p_block(Stop::Function, h.s)) },
    }
}
/// [keyword / block] in O RLY? and WTF?
#[verifier::opaque]
pub open spec fn p_branch(k: Keywords, b: Stop, s: St) -> PR<Option<BranchS>>
    decreases s.rest.len(), s.cur.len(), 4int
{
    if !at_kw(s, k) { pok(None, s) }
    else {
        let n = p_end(bump(s));
        match n.r {
            Err(e) => PR { r: Err(e), s: n.s },
            Ok(_) => if !lt(n.s, s) { arbitrary() } else { let x = p_block(b, n.s); pok(Some(BranchS { tok: s.cur[0], block: x.b }), x.s) }
        }
    }
}
/// MEBBE expression and OMG expression, the keyword seen
pub open spec fn p_case_head(k: Keywords, s: St) -> PR<ExprS> {
    if s.cur.len() <= 1 {
        perr(if k == Keywords::MEBBE { ASTErrorType::ORly(ORlyError::MissingMebbeExpression(s.cur[0])) } else { ASTErrorType::MissingToken(s.cur[0]) }, bump(s))
    }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r {
            Err(e) => PR { r: Err(e), s: x.s },
            Ok(cond) => {
                let n = p_end(x.s);
                match n.r { Err(e) => PR { r: Err(e), s: n.s }, Ok(_) => pok(cond, n.s) }
            }
        }
    }
}
/// { MEBBE expression / block } and { OMG expression / block }
#[verifier::opaque]
pub open spec fn p_cases(k: Keywords, b: Stop, acc: Seq<MebbeS>, s: St) -> PR<Seq<MebbeS>>
    decreases s.rest.len(), s.cur.len(), 4int
{
    if !at_kw(s, k) { pok(acc, s) }
    else {
        let h = p_case_head(k, s);
        match h.r {
            Err(e) => PR { r: Err(e), s: h.s },
            Ok(cond) =>
                if !lt(h.s, s) { arbitrary() }
                else {
                    let y = p_block(b, h.s);
                    if !lt(y.s, s) { arbitrary() }
                    else { p_cases(k, b, acc.push(MebbeS { tok: s.cur[0], cond, block: y.b }), y.s) }
                }
        }
    }
}
/// OIC
pub open spec fn p_if_tail(t: Token, yes: Option<BranchS>, mebbes: Seq<MebbeS>, n: PR<Option<BranchS>>) -> PR<NodeS> {
    match n.r {
        Err(e) => PR { r: Err(e), s: n.s },
        Ok(no) => {
            let c = p_close(t, Keywords::OIC, n.s);
            match c.r { Err(e) => PR { r: Err(e), s: c.s }, Ok(_) => pok(NodeS::ORly(t, yes, mebbes, no), c.s) }
        }
    }
}
pub open spec fn p_switch_tail(t: Token, omgs: Seq<MebbeS>, n: PR<Option<BranchS>>) -> PR<NodeS> {
    match n.r {
        Err(e) => PR { r: Err(e), s: n.s },
        Ok(other) => {
            let c = p_close(t, Keywords::OIC, n.s);
            match c.r { Err(e) => PR { r: Err(e), s: c.s }, Ok(_) => pok(NodeS::Wtf(t, omgs, other), c.s) }
        }
    }
}
/// O RLY ? / [YA RLY / block] {MEBBE expression / block} [NO WAI / block] / OIC
#[verifier::opaque]
pub open spec fn p_o_rly(t: Token, s: St) -> PR<NodeS>
    decreases s.rest.len(), s.cur.len(), 5int
{
    let q = p_question(t, s);
    match q.r {
        Err(e) => PR { r: Err(e), s: q.s },
        Ok(_) => if !lt(q.s, s) { arbitrary() } else {
            let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
            match y.r {
                Err(e) => PR { r: Err(e), s: y.s },
                Ok(yes) => if !lt(y.s, s) { arbitrary() } else {
                    let m = p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
                    match m.r {
                        Err(e) => PR { r: Err(e), s: m.s },
                        Ok(mebbes) => if !lt(m.s, s) { arbitrary() } else { p_if_tail(t, yes, mebbes, p_branch(Keywords::NO_WAI, Stop::If, m.s)) },
                    }
                }
            }
        }
    }
}
/// WTF ? / {OMG expression / block} [OMGWTF / block] / OIC
#[verifier::opaque]
pub open spec fn p_wtf(t: Token, s: St) -> PR<NodeS>
    decreases s.rest.len(), s.cur.len(), 5int
{
    let q = p_question(t, s);
    match q.r {
        Err(e) => PR { r: Err(e), s: q.s },
        Ok(_) => if !lt(q.s, s) { arbitrary() } else {
            let m = p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
            match m.r {
                Err(e) => PR { r: Err(e), s: m.s },
                Ok(omgs) => if !lt(m.s, s) { arbitrary() } else { p_switch_tail(t, omgs, p_branch(Keywords::OMGWTF, Stop::Switch, m.s)) },
            }
        }
    }
}
/// a program
pub open spec fn p_program(tokens: Seq<Token>) -> Seq<NodeS> { p_block(Stop::Program, start_st(tokens)).b }

} // verus!
