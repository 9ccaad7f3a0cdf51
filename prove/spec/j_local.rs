// C18: parsing is compositional at the places where no block is open.
verus! {

/// `s` with more statements after it
pub open spec fn ext(s: St, b: Seq<Seq<Token>>) -> St { St { cur: s.cur, rest: s.rest + b } }
pub open spec fn xp<T>(p: PR<T>, b: Seq<Seq<Token>>) -> PR<T> { PR { r: p.r, s: ext(p.s, b) } }
/// the error of a block that is still open where the input ends
pub open spec fn unclosed_err(e: ErrS) -> bool {
    match e { ErrS::One(ASTErrorType::MissingBlockClosingToken(_)) => true, ErrS::One(ASTErrorType::ImInYr(ImInYrError::MissingImOuttaYr(_))) => true, _ => false }
}
pub open spec fn unclosed<T>(r: Result<T, ErrS>) -> bool { match r { Err(e) => unclosed_err(e), Ok(_) => false } }
/// the same result, whatever statements follow
pub open spec fn stays<T>(p: PR<T>, q: PR<T>, b: Seq<Seq<Token>>) -> bool { q == xp(p, b) && !unclosed(p.r) }
pub open spec fn good(s: St) -> bool { forall|i: int| 0 <= i < s.rest.len() ==> (#[trigger] s.rest[i]).len() > 0 }
pub open spec fn at_end(s: St) -> bool { s.cur.len() == 0 && s.rest.len() == 0 }

// ---- within a statement
pub broadcast proof fn lemma_ident_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures #![trigger p_ident(t, ext(s, b))] stays(p_ident(t, s), p_ident(t, ext(s, b)), b),
{ }
pub proof fn lemma_slots_x(id: Identifier, acc: Seq<VariableAccessSlot>, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_slots(id, acc, s), p_slots(id, acc, ext(s, b)), b),
    decreases s.cur.len()
{
    let y = ext(s, b);
    assert(ext(bump(s), b) == bump(y));
    assert(ext(bump(bump(s)), b) == bump(bump(y)));
    if s.cur.len() == 0 || s.cur[0].token_type != TokenType::BukkitSlotAccess { }
    else if s.cur.len() == 1 { }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        lemma_ident_x(s.cur[1], bump(bump(s)), b);
        match i.r { Err(e) => {}, Ok(x) => { lemma_slots_x(id, acc.push(VariableAccessSlot { slot_access_token: s.cur[0], identifier: x }), i.s, b); } }
    }
}
pub broadcast proof fn lemma_var_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures #![trigger p_var(t, ext(s, b))] stays(p_var(t, s), p_var(t, ext(s, b)), b),
{
    let i = p_ident(t, s);
    lemma_ident_x(t, s, b);
    match i.r { Err(e) => {}, Ok(x) => { lemma_slots_x(x, Seq::empty(), i.s, b); } }
}
pub broadcast proof fn lemma_expr_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures #![trigger p_expr(t, ext(s, b))] stays(p_expr(t, s), p_expr(t, ext(s, b)), b),
    decreases s.cur.len(), 1int
{
    if starts_var(t) { lemma_var_x(t, s, b); }
    else if is_literal(t) { }
    else if is_kw(t, Keywords::NOT) { lemma_un_x(UnaryOpt::Not(t), s, b); }
    else {
        match bin_op(t) {
            Some(op) => { lemma_bin_x(op, s, b); }
            None => match nary_op(t) { Some(op) => { lemma_nary_x(op, Seq::empty(), s, b); } None => { } }
        }
    }
}
pub proof fn lemma_un_x(op: UnaryOpt, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_un(op, s), p_un(op, ext(s, b)), b),
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 {
        assert(ext(bump(s), b) == bump(ext(s, b)));
        lemma_expr_x(s.cur[0], bump(s), b);
    }
}
pub proof fn lemma_bin_x(op: BinaryOpt, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_bin(op, s), p_bin(op, ext(s, b)), b),
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 {
        assert(ext(bump(s), b) == bump(ext(s, b)));
        lemma_expr_x(s.cur[0], bump(s), b);
        lemma_expr_within(s.cur[0], bump(s));
        let l = p_expr(s.cur[0], bump(s));
        match l.r {
            Err(e) => {}
            Ok(le) => {
                let s2 = skip_kw(l.s, Keywords::AN);
                assert(skip_kw(ext(l.s, b), Keywords::AN) == ext(s2, b));
                if s2.cur.len() > 0 {
                    assert(ext(bump(s2), b) == bump(ext(s2, b)));
                    lemma_expr_x(s2.cur[0], bump(s2), b);
                }
            }
        }
    }
}
pub proof fn lemma_nary_x(op: NaryOpt, acc: Seq<OperandS>, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_nary(op, acc, s), p_nary(op, acc, ext(s, b)), b),
    decreases s.cur.len(), 0int
{
    assert(ext(bump(s), b) == bump(ext(s, b)));
    if s.cur.len() == 0 || is_kw(s.cur[0], Keywords::MKAY) { }
    else {
        lemma_expr_x(s.cur[0], bump(s), b);
        lemma_expr_within(s.cur[0], bump(s));
        let x = p_expr(s.cur[0], bump(s));
        match x.r {
            Err(e) => {}
            Ok(e) => {
                let s2 = skip_kw(x.s, Keywords::AN);
                assert(skip_kw(ext(x.s, b), Keywords::AN) == ext(s2, b));
                lemma_nary_x(op, acc.push(OperandS { e, an: opt_kw(x.s, Keywords::AN) }), s2, b);
            }
        }
    }
}
pub broadcast proof fn lemma_bump_x(s: St, b: Seq<Seq<Token>>)
    ensures #![trigger bump(ext(s, b))] bump(ext(s, b)) == ext(bump(s), b),
{ }
pub broadcast proof fn lemma_skip_kw_x(s: St, k: Keywords, b: Seq<Seq<Token>>)
    ensures #![trigger skip_kw(ext(s, b), k)] skip_kw(ext(s, b), k) == ext(skip_kw(s, k), b),
{ }
pub broadcast group group_x { lemma_bump_x, lemma_skip_kw_x, lemma_ident_x, lemma_var_x, lemma_expr_x, lemma_ident_within, lemma_var_within, lemma_expr_within }

pub proof fn lemma_visible_x(t: Token, acc: Seq<ExprS>, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_visible(t, acc, s), p_visible(t, acc, ext(s, b)), b),
    decreases s.cur.len()
{
    broadcast use group_x;
    if s.cur.len() == 0 { }
    else if s.cur[0].token_type == TokenType::ExclamationMark { }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r { Err(e) => {}, Ok(e) => { lemma_visible_x(t, acc.push(e), x.s, b); } }
    }
}
pub proof fn lemma_args_x(t: Token, name: VarS, acc: Seq<ExprS>, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_args(t, name, acc, s), p_args(t, name, acc, ext(s, b)), b),
    decreases s.cur.len()
{
    broadcast use group_x;
    if !at_kw(s, Keywords::YR) { }
    else if s.cur.len() == 1 { }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r { Err(e) => {}, Ok(e) => { if at_kw(x.s, Keywords::AN) { lemma_args_x(t, name, acc.push(e), bump(x.s), b); } } }
    }
}
pub proof fn lemma_params_x(acc: Seq<Identifier>, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_params(acc, s), p_params(acc, ext(s, b)), b),
    decreases s.cur.len()
{
    broadcast use group_x;
    if !at_kw(s, Keywords::YR) { }
    else if s.cur.len() == 1 { }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r { Err(e) => {}, Ok(id) => { if at_kw(i.s, Keywords::AN) { lemma_params_x(acc.push(id), bump(i.s), b); } } }
    }
}
pub proof fn lemma_i_iz_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_i_iz(t, s), p_i_iz(t, ext(s, b)), b),
{
    broadcast use group_x;
    if s.cur.len() > 0 {
        let v = p_var(s.cur[0], bump(s));
        match v.r { Err(e) => {}, Ok(x) => { lemma_args_x(t, x, Seq::empty(), v.s, b); } }
    }
}
pub proof fn lemma_i_has_a_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_i_has_a(t, s), p_i_has_a(t, ext(s, b)), b),
{ broadcast use group_x; }
pub proof fn lemma_assign_x(v: VarS, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_assign(v, s), p_assign(v, ext(s, b)), b),
{ broadcast use group_x; }
pub proof fn lemma_slot_set_x(v: VarS, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_slot_set(v, s), p_slot_set(v, ext(s, b)), b),
{ broadcast use group_x; }
pub proof fn lemma_var_stmt_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_var_stmt(t, s), p_var_stmt(t, ext(s, b)), b),
{
    broadcast use group_x;
    let v = p_var(t, s);
    match v.r { Err(e) => {}, Ok(x) => { lemma_slot_set_x(x, v.s, b); lemma_assign_x(x, v.s, b); } }
}
pub proof fn lemma_simple_x(t: Token, s: St, b: Seq<Seq<Token>>)
    ensures stays(p_simple(t, s), p_simple(t, ext(s, b)), b),
{
    broadcast use group_x;
    if starts_var(t) { lemma_var_stmt_x(t, s, b); }
    else if is_kw(t, Keywords::I_HAS_A) { lemma_i_has_a_x(t, s, b); }
    else if is_kw(t, Keywords::VISIBLE) { lemma_visible_x(t, Seq::empty(), s, b); }
    else if is_kw(t, Keywords::I_IZ) { lemma_i_iz_x(t, s, b); }
}

// ---- heads of blocks: they stay the same unless the input ends with them
/// `q`, parsed with `b` after the input, is `p`, or `p` succeeded exactly at the end of the input
pub open spec fn opens<T>(p: PR<T>, q: PR<T>, b: Seq<Seq<Token>>) -> bool {
    &&& good(p.s)
    &&& !unclosed(p.r)
    &&& q == xp(p, b) || (p.r is Ok && at_end(p.s))
    &&& p.r is Ok && p.s.cur.len() == 0 ==> at_end(p.s)
}
pub proof fn lemma_within_good(s: St, x: St)
    requires good(s), within(x, s),
    ensures good(x),
{ }
pub proof fn lemma_next_x(s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures
        good(next_st(s)), next_st(s).cur.len() == 0 ==> at_end(next_st(s)),
        s.rest.len() > 0 ==> next_st(ext(s, b)) == ext(next_st(s), b),
        next_st(s).cur.len() > 0 ==> s.rest.len() > 0,
{
    if s.rest.len() > 0 {
        let n = next_st(s);
        assert(n.cur == s.rest[0]);
        assert forall|i: int| 0 <= i < n.rest.len() implies (#[trigger] n.rest[i]).len() > 0 by { assert(n.rest[i] == s.rest[i + 1]); }
        assert((s.rest + b).drop_first() =~= s.rest.drop_first() + b);
    }
}
pub proof fn lemma_end_x(s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures opens(p_end(s), p_end(ext(s, b)), b),
{ lemma_next_x(s, b); }
pub proof fn lemma_question_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures opens(p_question(t, s), p_question(t, ext(s, b)), b),
{ broadcast use group_x; lemma_end_x(bump(s), b); }
pub proof fn lemma_loop_op_x(s: St, b: Seq<Seq<Token>>)
    ensures stays(p_loop_op(s), p_loop_op(ext(s, b)), b),
{ broadcast use group_x; }
pub proof fn lemma_loop_cond_x(s: St, b: Seq<Seq<Token>>)
    ensures stays(p_loop_cond(s), p_loop_cond(ext(s, b)), b),
{ broadcast use group_x; }
pub proof fn lemma_loop_head_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures opens(p_loop_head(t, s), p_loop_head(t, ext(s, b)), b),
{
    broadcast use {lemma_bump_x, lemma_loop_op_within, lemma_loop_cond_within};
    let o = p_loop_op(bump(s));
    lemma_loop_op_x(bump(s), b);
    let c = p_loop_cond(o.s);
    lemma_loop_cond_x(o.s, b);
    lemma_end_x(c.s, b);
}
pub proof fn lemma_fn_head_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures opens(p_fn_head(t, s), p_fn_head(t, ext(s, b)), b),
{
    broadcast use group_x;
    if s.cur.len() > 0 {
        let i = p_ident(s.cur[0], bump(s));
        lemma_params_x(Seq::empty(), i.s, b);
        lemma_params_le(Seq::empty(), i.s);
        lemma_end_x(p_params(Seq::empty(), i.s).s, b);
    }
}
pub proof fn lemma_case_head_x(k: Keywords, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures opens(p_case_head(k, s), p_case_head(k, ext(s, b)), b),
{
    broadcast use group_x;
    if s.cur.len() > 1 { lemma_end_x(p_expr(s.cur[1], bump(bump(s))).s, b); }
}
pub proof fn lemma_close_x(t: Token, k: Keywords, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures
        good(p_close(t, k, s).s), unclosed(p_close(t, k, s).r) <==> s.cur.len() == 0, s.cur.len() == 0 ==> p_close(t, k, s).s == s,
        s.cur.len() > 0 ==> p_close(t, k, ext(s, b)) == xp(p_close(t, k, s), b),
{ broadcast use group_x; }

// ---- statements and blocks
/// `q`, parsed with `b` after the input, is `p`, or `p` is an unclosed block at the end of the input
pub open spec fn whole<T>(p: PR<T>, q: PR<T>, b: Seq<Seq<Token>>) -> bool {
    good(p.s) && if unclosed(p.r) { at_end(p.s) } else { q == xp(p, b) }
}
/// `q`, parsed with `b` after the input, is `p`, or `p` ended with the input
pub open spec fn blocks(p: PB, q: PB, b: Seq<Seq<Token>>) -> bool {
    good(p.s) && if p.s.cur.len() == 0 { at_end(p.s) } else { q == (PB { b: p.b, s: ext(p.s, b) }) }
}
pub proof fn lemma_block_x(k: Stop, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures blocks(p_block(k, s), p_block(k, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 3int
{
    unfold_block(k, s);
    unfold_block(k, ext(s, b));
    if !stops(k, s) { lemma_body_x(k, Seq::empty(), s, b); }
}
pub proof fn lemma_one_x(s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures blocks(p_one(s), p_one(ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 1int
{
    broadcast use lemma_bump_x;
    unfold_one(s);
    unfold_one(ext(s, b));
    if s.cur.len() > 0 {
        lemma_stmt_x(s.cur[0], bump(s), b);
        let p = p_stmt(s.cur[0], bump(s));
        lemma_next_x(p.s, b);
    } else { lemma_next_x(s, b); }
}
pub proof fn lemma_body_x(k: Stop, acc: Seq<NodeS>, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures blocks(p_body(k, acc, s), p_body(k, acc, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 2int
{
    unfold_body(k, acc, s);
    unfold_body(k, acc, ext(s, b));
    let p = p_one(s);
    lemma_one_x(s, b);
    lemma_one_le(s);
    if p.s.cur.len() == 0 || stops(k, p.s) { }
    else { lemma_body_x(k, acc + p.b, p.s, b); }
}
pub proof fn lemma_stmt_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures whole(p_stmt(t, s), p_stmt(t, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 10int
{
    unfold_stmt(t, s);
    unfold_stmt(t, ext(s, b));
    if is_kw(t, Keywords::IM_IN_YR) { lemma_im_in_yr_x(t, s, b); }
    else if is_kw(t, Keywords::HOW_IZ_I) { lemma_how_iz_i_x(t, s, b); }
    else if is_kw(t, Keywords::WTF) { lemma_wtf_x(t, s, b); }
    else if is_kw(t, Keywords::O_RLY) { lemma_o_rly_x(t, s, b); }
    else { lemma_simple_x(t, s, b); lemma_simple_within(t, s); }
}
pub proof fn lemma_simple_within(t: Token, s: St)
    ensures within(p_simple(t, s).s, s),
{ broadcast use {group_within, lemma_visible_within, lemma_i_iz_within, lemma_var_stmt_within, lemma_i_has_a_within}; }
pub proof fn lemma_im_in_yr_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures whole(p_im_in_yr(t, s), p_im_in_yr(t, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 5int
{
    broadcast use lemma_bump_x;
    unfold_im_in_yr(t, s);
    unfold_im_in_yr(t, ext(s, b));
    let h = p_loop_head(t, s);
    lemma_loop_head_x(t, s, b);
    lemma_loop_head_le(t, s);
    match h.r { Err(e) => {}, Ok(x) => { lemma_block_x(Stop::Loop, h.s, b); if at_end(h.s) { lemma_block_end(Stop::Loop, h.s); } } }
}
/// a block that begins at the end of the input ends there
pub proof fn lemma_block_end(k: Stop, s: St)
    requires at_end(s),
    ensures p_block(k, s).s.cur.len() == 0,
{
    unfold_block(k, s);
    unfold_body(k, Seq::empty(), s);
    unfold_one(s);
}
pub proof fn lemma_how_iz_i_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures whole(p_how_iz_i(t, s), p_how_iz_i(t, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_how_iz_i(t, s);
    unfold_how_iz_i(t, ext(s, b));
    let h = p_fn_head(t, s);
    lemma_fn_head_x(t, s, b);
    lemma_fn_head_le(t, s);
    match h.r {
        Err(e) => {}
        Ok(x) => {
            lemma_block_x(Stop::Function, h.s, b);
            lemma_close_x(t, Keywords::IF_U_SAY_SO, p_block(Stop::Function, h.s).s, b);
            if at_end(h.s) { lemma_block_end(Stop::Function, h.s); }
        }
    }
}
pub proof fn lemma_branch_x(k: Keywords, x: Stop, s: St, b: Seq<Seq<Token>>)
    requires good(s), s.cur.len() == 0 ==> at_end(s),
    ensures opens(p_branch(k, x, s), p_branch(k, x, ext(s, b)), b), at_end(s) ==> p_branch(k, x, s) == pok(None::<BranchS>, s),
    decreases s.rest.len(), s.cur.len(), 4int
{
    broadcast use lemma_bump_x;
    unfold_branch(k, x, s);
    unfold_branch(k, x, ext(s, b));
    if at_kw(s, k) {
        let n = p_end(bump(s));
        lemma_end_x(bump(s), b);
        lemma_end_le(bump(s));
        match n.r { Err(e) => {}, Ok(_) => { lemma_block_x(x, n.s, b); if at_end(n.s) { lemma_block_end(x, n.s); } } }
    }
}
pub proof fn lemma_cases_x(k: Keywords, x: Stop, acc: Seq<MebbeS>, s: St, b: Seq<Seq<Token>>)
    requires good(s), s.cur.len() == 0 ==> at_end(s),
    ensures opens(p_cases(k, x, acc, s), p_cases(k, x, acc, ext(s, b)), b), at_end(s) ==> p_cases(k, x, acc, s) == pok(acc, s),
    decreases s.rest.len(), s.cur.len(), 4int
{
    unfold_cases(k, x, acc, s);
    unfold_cases(k, x, acc, ext(s, b));
    if at_kw(s, k) {
        let h = p_case_head(k, s);
        lemma_case_head_x(k, s, b);
        lemma_case_head_le(k, s);
        match h.r {
            Err(e) => {}
            Ok(cond) => {
                let y = p_block(x, h.s);
                lemma_block_x(x, h.s, b);
                lemma_block_le(x, h.s);
                if at_end(h.s) { lemma_block_end(x, h.s); }
                lemma_cases_x(k, x, acc.push(MebbeS { tok: s.cur[0], cond, block: y.b }), y.s, b);
            }
        }
    }
}
pub proof fn lemma_o_rly_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures whole(p_o_rly(t, s), p_o_rly(t, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_o_rly(t, s);
    unfold_o_rly(t, ext(s, b));
    let q = p_question(t, s);
    lemma_question_x(t, s, b);
    lemma_question_le(t, s);
    if q.r is Ok {
        let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
        lemma_branch_x(Keywords::YA_RLY, Stop::If, q.s, b);
        lemma_branch_le(Keywords::YA_RLY, Stop::If, q.s);
        if y.r is Ok {
            let m = p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            lemma_cases_x(Keywords::MEBBE, Stop::If, Seq::empty(), y.s, b);
            lemma_cases_le(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            if m.r is Ok {
                let n = p_branch(Keywords::NO_WAI, Stop::If, m.s);
                lemma_branch_x(Keywords::NO_WAI, Stop::If, m.s, b);
                if n.r is Ok { lemma_close_x(t, Keywords::OIC, n.s, b); }
            }
        }
    }
}
pub proof fn lemma_wtf_x(t: Token, s: St, b: Seq<Seq<Token>>)
    requires good(s),
    ensures whole(p_wtf(t, s), p_wtf(t, ext(s, b)), b),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_wtf(t, s);
    unfold_wtf(t, ext(s, b));
    let q = p_question(t, s);
    lemma_question_x(t, s, b);
    lemma_question_le(t, s);
    if q.r is Ok {
        let m = p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        lemma_cases_x(Keywords::OMG, Stop::Switch, Seq::empty(), q.s, b);
        lemma_cases_le(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        if m.r is Ok {
            let n = p_branch(Keywords::OMGWTF, Stop::Switch, m.s);
            lemma_branch_x(Keywords::OMGWTF, Stop::Switch, m.s, b);
            if n.r is Ok { lemma_close_x(t, Keywords::OIC, n.s, b); }
        }
    }
}

// ---- programs as lists of statements
/// the statements of a program, none begun yet
pub open spec fn at_start(b: Seq<Seq<Token>>) -> St { St { cur: Seq::empty(), rest: b } }
/// the nodes of a program's statements
pub open spec fn p_stmts(b: Seq<Seq<Token>>) -> Seq<NodeS> { p_body(Stop::Program, Seq::empty(), at_start(b)).b }
/// the program ends inside a block
pub open spec fn block_open(n: Seq<NodeS>) -> bool {
    n.len() > 0 && match n.last() { NodeS::Error(e) => unclosed_err(e), _ => false }
}
/// the nodes of the rest come after those before
pub proof fn lemma_body_acc(k: Stop, acc: Seq<NodeS>, s: St)
    ensures p_body(k, acc, s).b == acc + p_body(k, Seq::empty(), s).b, p_body(k, acc, s).s == p_body(k, Seq::empty(), s).s,
    decreases s.rest.len(), s.cur.len()
{
    unfold_body(k, acc, s);
    unfold_body(k, Seq::empty(), s);
    let p = p_one(s);
    lemma_one_le(s);
    assert(Seq::empty() + p.b =~= p.b);
    if p.s.cur.len() == 0 || stops(k, p.s) { }
    else {
        lemma_body_acc(k, acc + p.b, p.s);
        lemma_body_acc(k, p.b, p.s);
        let r = p_body(k, Seq::empty(), p.s).b;
        assert(acc + p.b + r =~= acc + (p.b + r));
    }
}
/// going on with the statements `b`, which `s` has come to
pub proof fn lemma_reached(acc: Seq<NodeS>, b: Seq<Seq<Token>>)
    ensures
        ({
            let n = next_st(at_start(b));
            acc + p_stmts(b) == if n.cur.len() == 0 { acc } else { p_body(Stop::Program, acc, n).b }
        }),
{
    let n = next_st(at_start(b));
    unfold_body(Stop::Program, Seq::empty(), at_start(b));
    unfold_one(at_start(b));
    let z = Seq::<NodeS>::empty();
    assert(z + z =~= z);
    assert(acc + z =~= acc);
    lemma_body_acc(Stop::Program, acc, n);
}
pub proof fn lemma_local(acc: Seq<NodeS>, s: St, b: Seq<Seq<Token>>)
    requires good(s), good(at_start(b)), !block_open(p_body(Stop::Program, acc, s).b),
    ensures p_body(Stop::Program, acc, ext(s, b)).b == p_body(Stop::Program, acc, s).b + p_stmts(b),
    decreases s.rest.len(), s.cur.len()
{
    broadcast use lemma_bump_x;
    let k = Stop::Program;
    let y = ext(s, b);
    unfold_body(k, acc, s);
    unfold_body(k, acc, y);
    unfold_one(s);
    unfold_one(y);
    let p = p_one(s);
    lemma_one_x(s, b);
    lemma_one_le(s);
    if p.s.cur.len() > 0 {
        lemma_local(acc + p.b, p.s, b);
    } else {
        let e = if s.cur.len() > 0 { p_stmt(s.cur[0], bump(s)).s } else { s };
        if s.cur.len() > 0 {
            let q = p_stmt(s.cur[0], bump(s));
            lemma_stmt_x(s.cur[0], bump(s), b);
            if unclosed(q.r) {
                assert((acc + p.b).last() == p.b.last());
                assert(p_body(k, acc, s).b == acc + p.b);
                assert(false);
            }
        }
        lemma_next_x(e, b);
        assert(e.rest.len() == 0);
        assert(e.rest + b =~= b);
        assert(next_st(ext(e, b)) == next_st(at_start(b)));
        lemma_reached(acc + p.b, b);
    }
}
pub proof fn theorem_stmts(a: Seq<Seq<Token>>, b: Seq<Seq<Token>>)
    requires good(at_start(a)), good(at_start(b)), !block_open(p_stmts(a)),
    ensures p_stmts(a + b) == p_stmts(a) + p_stmts(b),
{ lemma_local(Seq::empty(), at_start(a), b); }

// ---- programs as lists of tokens
/// `a` ends with an ellipsis that joins nothing: it is not part of a statement
pub open spec fn lone_ellipsis(a: Seq<Token>) -> bool {
    is_ellipsis(a.last()) && (a.len() == 1 || is_comma(a[a.len() - 2]) || (!is_ellipsis(a[a.len() - 2]) && end_line(a[a.len() - 2]) != start_line(a.last())))
}
/// a statement ends where `a` ends and `b` begins
pub open spec fn boundary(a: Seq<Token>, b: Seq<Token>) -> bool {
    a.len() == 0 || b.len() == 0 || is_comma(a.last()) || is_comma(b[0]) || lone_ellipsis(a)
    || (!is_ellipsis(a.last()) && end_line(a.last()) != start_line(b[0]))
}
pub proof fn lemma_stmt_cut(a: Seq<Token>, b: Seq<Token>, line: i32)
    requires boundary(a, b), a.len() > 0, a.len() == 1 && is_ellipsis(a[0]) && b.len() > 0 ==> is_comma(b[0]) || start_line(a[0]) != line,
    ensures stmt(a + b, line) == stmt(a, line), after(a + b, line) == after(a, line) + b,
    decreases a.len()
{
    let r = a.drop_first();
    assert((a + b).drop_first() =~= r + b);
    assert((a + b)[0] == a[0]);
    if is_comma(a[0]) || start_line(a[0]) != line { }
    else {
        let l = if is_ellipsis(a[0]) { joined_line(r, line) } else { end_line(a[0]) };
        if r.len() > 0 {
            assert(r.last() == a.last());
            if r.len() > 1 { assert(r[r.len() - 2] == a[a.len() - 2]); }
            lemma_stmt_cut(r, b, l);
            assert((r + b)[0] == r[0]);
        } else {
            assert(r + b =~= b);
            assert(a.last() == a[0]);
            assert(after(r, l) =~= r);
            let l2 = if is_ellipsis(a[0]) { joined_line(b, line) } else { l };
            assert(stmt(b, l2) =~= Seq::empty());
            assert(stmt(r, l) =~= Seq::empty());
            assert(after(b, l2) =~= b);
        }
    }
}
pub proof fn lemma_skip_cut(a: Seq<Token>, b: Seq<Token>)
    ensures
        skip_separators(a + b) == (if skip_separators(a).len() > 0 { skip_separators(a) + b } else { skip_separators(b) }),
        skip_separators(a).len() > 0 ==> boundary(a, b) ==> boundary(skip_separators(a), b),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b).drop_first() =~= a.drop_first() + b);
        assert((a + b)[0] == a[0]);
        if is_separator(a[0]) {
            lemma_skip_cut(a.drop_first(), b);
            if boundary(a, b) && a.len() > 1 { lemma_boundary_drop(a, b); }
        }
    }
}
pub proof fn lemma_boundary_drop(a: Seq<Token>, b: Seq<Token>)
    requires boundary(a, b), a.len() > 1,
    ensures boundary(a.drop_first(), b),
{
    let r = a.drop_first();
    assert(r.last() == a.last());
    if r.len() > 1 { assert(r[r.len() - 2] == a[a.len() - 2]); }
}
pub proof fn lemma_after_boundary(a: Seq<Token>, b: Seq<Token>, line: i32)
    requires boundary(a, b),
    ensures after(a, line).len() > 0 ==> boundary(after(a, line), b),
    decreases a.len()
{
    if a.len() == 0 || is_comma(a[0]) || start_line(a[0]) != line { }
    else {
        if a.len() > 1 { lemma_boundary_drop(a, b); }
        if is_ellipsis(a[0]) { lemma_after_boundary(a.drop_first(), b, joined_line(a.drop_first(), line)); }
        else { lemma_after_boundary(a.drop_first(), b, end_line(a[0])); }
    }
}
pub proof fn lemma_split_cut(a: Seq<Token>, b: Seq<Token>)
    requires boundary(a, b),
    ensures split(a + b) == split(a) + split(b),
    decreases a.len()
{
    let s = skip_separators(a);
    lemma_skip_cut(a, b);
    lemma_split(a + b);
    lemma_split(a);
    lemma_split(b);
    lemma_skip_len(a);
    if s.len() == 0 {
        assert(split(a) + split(b) =~= split(b));
        assert(split(a + b) =~= split(b));
    } else {
        let l = first_line(s);
        let r = after(s, l);
        assert((s + b)[0] == s[0]);
        lemma_stmt_cut(s, b, l);
        lemma_after_len(s, l);
        lemma_after_boundary(s, b, l);
        lemma_split_cut(r, b);
        let x = seq![stmt(s, l)];
        assert(x + (split(r) + split(b)) =~= x + split(r) + split(b));
    }
}
pub proof fn lemma_split_good(a: Seq<Token>)
    ensures good(at_start(split(a))),
    decreases a.len()
{
    lemma_split(a);
    let s = skip_separators(a);
    lemma_skip_len(a);
    if s.len() > 0 {
        let l = first_line(s);
        lemma_after_len(s, l);
        lemma_split_good(after(s, l));
        let z = at_start(split(a));
        let y = at_start(split(after(s, l)));
        assert forall|i: int| 0 <= i < z.rest.len() implies (#[trigger] z.rest[i]).len() > 0 by {
            if i > 0 { assert(z.rest[i] == y.rest[i - 1]); }
        }
    }
}
/// parsing begins with the first statement, if there are no separators before it
pub proof fn lemma_start(raw: Seq<Token>)
    ensures
        ({
            let s = st_of(raw, first_line(raw));
            s == at_start(split(raw)) || (s.cur.len() > 0 && s == next_st(at_start(split(raw))))
        }),
    decreases raw.len()
{
    let l = first_line(raw);
    let s = st_of(raw, l);
    lemma_split(raw);
    if s.cur.len() == 0 { lemma_no_stmt(); assert(s.cur =~= Seq::empty()); }
    else if is_ellipsis(raw[0]) {
        let r = raw.drop_first();
        assert(s.cur == stmt(r, joined_line(r, l)));
        assert(r.len() > 0);
        assert(joined_line(r, l) == first_line(r));
        assert(s == st_of(r, first_line(r)));
        lemma_start(r);
        lemma_split(r);
        assert(split(raw) =~= split(r));
    } else {
        assert(skip_separators(raw) == raw);
        assert(split(raw).drop_first() =~= split(after(raw, l)));
    }
}
pub proof fn lemma_program(t: Seq<Token>)
    ensures p_program(t) == p_stmts(split(no_comments(t))),
{
    let raw = no_comments(t);
    let s = st_of(raw, first_line(raw));
    lemma_start(raw);
    unfold_block(Stop::Program, s);
    if s != at_start(split(raw)) {
        lemma_reached(Seq::empty(), split(raw));
        assert(Seq::empty() + p_stmts(split(raw)) =~= p_stmts(split(raw)));
    }
}
/// C18: a program cut where a statement ends and no block is open
pub proof fn theorem_c18(a: Seq<Token>, b: Seq<Token>)
    requires boundary(no_comments(a), no_comments(b)), !block_open(p_program(a)),
    ensures p_program(a + b) == p_program(a) + p_program(b),
{
    let p = |t: Token| !is_comment(t);
    Seq::filter_distributes_over_add(a, b, p);
    let x = no_comments(a);
    let y = no_comments(b);
    lemma_program(a);
    lemma_program(b);
    lemma_program(a + b);
    lemma_split_cut(x, y);
    lemma_split_good(x);
    lemma_split_good(y);
    theorem_stmts(split(x), split(y));
}
/// a statement that opens no block
pub open spec fn one_line(t: Token) -> bool {
    !is_kw(t, Keywords::IM_IN_YR) && !is_kw(t, Keywords::HOW_IZ_I) && !is_kw(t, Keywords::WTF) && !is_kw(t, Keywords::O_RLY)
}
pub proof fn lemma_visible_ok(t: Token, acc: Seq<ExprS>, s: St)
    ensures p_visible(t, acc, s).r is Ok ==> p_visible(t, acc, s).r->Ok_0 is Visible,
    decreases s.cur.len()
{
    broadcast use group_within;
    if s.cur.len() > 0 && s.cur[0].token_type != TokenType::ExclamationMark {
        let x = p_expr(s.cur[0], bump(s));
        match x.r { Err(e) => {}, Ok(e) => { lemma_visible_ok(t, acc.push(e), x.s); } }
    }
}
pub proof fn lemma_args_ok(t: Token, name: VarS, acc: Seq<ExprS>, s: St)
    ensures p_args(t, name, acc, s).r is Ok ==> p_args(t, name, acc, s).r->Ok_0 is IIz,
    decreases s.cur.len()
{
    broadcast use group_within;
    if at_kw(s, Keywords::YR) && s.cur.len() > 1 {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r { Err(e) => {}, Ok(e) => { if at_kw(x.s, Keywords::AN) { lemma_args_ok(t, name, acc.push(e), bump(x.s)); } } }
    }
}
pub proof fn lemma_simple_ok(t: Token, s: St)
    ensures p_simple(t, s).r is Ok ==> !(p_simple(t, s).r->Ok_0 is Error),
{
    lemma_visible_ok(t, Seq::empty(), s);
    if s.cur.len() > 0 {
        let v = p_var(s.cur[0], bump(s));
        match v.r { Err(e) => {}, Ok(x) => { lemma_args_ok(t, x, Seq::empty(), v.s); } }
    }
}
/// C18: a statement that opens no block, well-formed or not, gives the same nodes wherever it stands,
/// at any depth, and parsing goes on with the statement after it
pub proof fn theorem_c18_one_line(s: St)
    requires s.cur.len() > 0, one_line(s.cur[0]),
    ensures
        p_one(s).s == next_st(s),
        p_one(s).b == p_one(St { cur: s.cur, rest: Seq::empty() }).b,
        1 <= p_one(s).b.len() <= 2,
        !block_open(p_one(s).b),
{
    let z = St { cur: s.cur, rest: Seq::empty() };
    unfold_one(s);
    unfold_one(z);
    unfold_stmt(s.cur[0], bump(s));
    unfold_stmt(s.cur[0], bump(z));
    lemma_simple_within(s.cur[0], bump(s));
    lemma_simple_x(s.cur[0], bump(z), s.rest);
    assert(ext(bump(z), s.rest).rest =~= s.rest);
    lemma_simple_ok(s.cur[0], bump(s));
}

} // verus!
