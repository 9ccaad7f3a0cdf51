// No construct gives tokens back: what is left after it is at most what was there before.  These
// lemmas discharge the termination guards of the grammar.
verus! {

pub broadcast proof fn lemma_next_le(s: St)
    ensures le(#[trigger] next_st(s), s),
{ }
pub proof fn lemma_visible_le(t: Token, acc: Seq<ExprS>, s: St)
    ensures within(p_visible(t, acc, s).s, s),
    decreases s.cur.len()
{
    broadcast use group_within;
    if s.cur.len() == 0 { }
    else if s.cur[0].token_type == TokenType::ExclamationMark { }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r { Err(e) => {}, Ok(e) => { lemma_visible_le(t, acc.push(e), x.s); } }
    }
}
pub proof fn lemma_args_le(t: Token, name: VarS, acc: Seq<ExprS>, s: St)
    ensures within(p_args(t, name, acc, s).s, s),
    decreases s.cur.len()
{
    broadcast use group_within;
    if !at_kw(s, Keywords::YR) { }
    else if s.cur.len() == 1 { }
    else {
        let x = p_expr(s.cur[1], bump(bump(s)));
        match x.r { Err(e) => {}, Ok(e) => { if at_kw(x.s, Keywords::AN) { lemma_args_le(t, name, acc.push(e), bump(x.s)); } } }
    }
}
pub proof fn lemma_params_le(acc: Seq<Identifier>, s: St)
    ensures within(p_params(acc, s).s, s),
    decreases s.cur.len()
{
    broadcast use group_within;
    if !at_kw(s, Keywords::YR) { }
    else if s.cur.len() == 1 { }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r { Err(e) => {}, Ok(id) => { if at_kw(i.s, Keywords::AN) { lemma_params_le(acc.push(id), bump(i.s)); } } }
    }
}
pub broadcast proof fn lemma_visible_within(t: Token, s: St)
    ensures within(#[trigger] p_visible(t, Seq::empty(), s).s, s),
{ lemma_visible_le(t, Seq::empty(), s); }
pub broadcast proof fn lemma_i_iz_within(t: Token, s: St)
    ensures within(#[trigger] p_i_iz(t, s).s, s),
{
    broadcast use group_within;
    if s.cur.len() > 0 {
        let v = p_var(s.cur[0], bump(s));
        match v.r { Err(e) => {}, Ok(x) => { lemma_args_le(t, x, Seq::empty(), v.s); } }
    }
}
pub broadcast proof fn lemma_var_stmt_within(t: Token, s: St)
    ensures within(#[trigger] p_var_stmt(t, s).s, s),
{ broadcast use group_within; }
pub broadcast proof fn lemma_i_has_a_within(t: Token, s: St)
    ensures within(#[trigger] p_i_has_a(t, s).s, s),
{ broadcast use group_within; }
pub broadcast proof fn lemma_close_within(t: Token, k: Keywords, s: St)
    ensures within(#[trigger] p_close(t, k, s).s, s),
{ }
pub broadcast proof fn lemma_end_le(s: St)
    ensures le(#[trigger] p_end(s).s, s),
{ }
pub broadcast proof fn lemma_question_le(t: Token, s: St)
    ensures le(#[trigger] p_question(t, s).s, s), p_question(t, s).r is Ok ==> lt(p_question(t, s).s, s),
{ }
pub broadcast proof fn lemma_loop_op_within(s: St)
    ensures within(#[trigger] p_loop_op(s).s, s),
{ broadcast use group_within; }
pub broadcast proof fn lemma_loop_cond_within(s: St)
    ensures within(#[trigger] p_loop_cond(s).s, s),
{ broadcast use group_within; }
pub broadcast proof fn lemma_loop_head_le(t: Token, s: St)
    ensures le(#[trigger] p_loop_head(t, s).s, s), p_loop_head(t, s).r is Ok ==> lt(p_loop_head(t, s).s, s),
{ broadcast use {lemma_loop_op_within, lemma_loop_cond_within}; }
pub broadcast proof fn lemma_case_head_le(k: Keywords, s: St)
    ensures le(#[trigger] p_case_head(k, s).s, s), p_case_head(k, s).r is Ok ==> lt(p_case_head(k, s).s, s),
{ broadcast use group_within; }
pub broadcast proof fn lemma_simple_le(t: Token, s: St)
    ensures le(#[trigger] p_simple(t, s).s, s),
{ broadcast use {group_within, lemma_visible_within, lemma_i_iz_within, lemma_var_stmt_within, lemma_i_has_a_within}; }
pub broadcast proof fn lemma_fn_head_le(t: Token, s: St)
    ensures le(#[trigger] p_fn_head(t, s).s, s), p_fn_head(t, s).r is Ok ==> lt(p_fn_head(t, s).s, s),
{
    broadcast use group_within;
    if s.cur.len() > 0 {
        let i = p_ident(s.cur[0], bump(s));
        match i.r { Err(e) => {}, Ok(x) => { lemma_params_le(Seq::empty(), i.s); } }
    }
}
pub broadcast group group_le_small {
    lemma_simple_le, lemma_close_within, lemma_end_le, lemma_question_le, lemma_loop_head_le, lemma_fn_head_le, lemma_case_head_le, lemma_next_le,
}

pub broadcast proof fn lemma_block_le(k: Stop, s: St)
    ensures le(#[trigger] p_block(k, s).s, s),
    decreases s.rest.len(), s.cur.len(), 3int
{
    reveal(p_block); reveal(p_body);
    if !stops(k, s) { lemma_body_le(k, Seq::empty(), s); }
}
pub broadcast proof fn lemma_one_le(s: St)
    ensures le(#[trigger] p_one(s).s, s), s.cur.len() > 0 ==> lt(p_one(s).s, s), p_one(s).s.cur.len() > 0 ==> lt(p_one(s).s, s),
    decreases s.rest.len(), s.cur.len(), 1int
{
    reveal(p_one); reveal(p_stmt);
    if s.cur.len() > 0 { lemma_stmt_le(s.cur[0], bump(s)); }
}
pub proof fn lemma_body_le(k: Stop, acc: Seq<NodeS>, s: St)
    ensures le(p_body(k, acc, s).s, s),
    decreases s.rest.len(), s.cur.len(), 2int
{
    reveal(p_body); reveal(p_one);
    let p = p_one(s);
    lemma_one_le(s);
    if p.s.cur.len() == 0 || stops(k, p.s) { }
    else { lemma_body_le(k, acc + p.b, p.s); }
}
pub broadcast proof fn lemma_stmt_le(t: Token, s: St)
    ensures le(#[trigger] p_stmt(t, s).s, s),
    decreases s.rest.len(), s.cur.len(), 10int
{
    reveal(p_stmt); reveal(p_im_in_yr); reveal(p_how_iz_i); reveal(p_wtf); reveal(p_o_rly);
    if is_kw(t, Keywords::IM_IN_YR) { lemma_im_in_yr_le(t, s); }
    else if is_kw(t, Keywords::HOW_IZ_I) { lemma_how_iz_i_le(t, s); }
    else if is_kw(t, Keywords::WTF) { lemma_wtf_le(t, s); }
    else if is_kw(t, Keywords::O_RLY) { lemma_o_rly_le(t, s); }
    else { lemma_simple_le(t, s); }
}
pub proof fn lemma_im_in_yr_le(t: Token, s: St)
    ensures le(p_im_in_yr(t, s).s, s),
    decreases s.rest.len(), s.cur.len(), 5int
{
    reveal(p_im_in_yr); reveal(p_block);
    let h = p_loop_head(t, s);
    lemma_loop_head_le(t, s);
    match h.r { Err(e) => {}, Ok(_) => { lemma_block_le(Stop::Loop, h.s); } }
}
pub proof fn lemma_how_iz_i_le(t: Token, s: St)
    ensures le(p_how_iz_i(t, s).s, s),
    decreases s.rest.len(), s.cur.len(), 5int
{
    reveal(p_how_iz_i); reveal(p_block);
    let h = p_fn_head(t, s);
    lemma_fn_head_le(t, s);
    match h.r { Err(e) => {}, Ok(_) => { lemma_block_le(Stop::Function, h.s); } }
}
pub broadcast proof fn lemma_branch_le(k: Keywords, b: Stop, s: St)
    ensures le(#[trigger] p_branch(k, b, s).s, s),
    decreases s.rest.len(), s.cur.len(), 4int
{
    reveal(p_branch); reveal(p_block);
    lemma_end_le(bump(s));
    if at_kw(s, k) {
        let n = p_end(bump(s));
        match n.r { Err(e) => {}, Ok(_) => { lemma_block_le(b, n.s); } }
    }
}
pub proof fn lemma_cases_le(k: Keywords, b: Stop, acc: Seq<MebbeS>, s: St)
    ensures le(p_cases(k, b, acc, s).s, s),
    decreases s.rest.len(), s.cur.len(), 4int
{
    reveal(p_cases); reveal(p_block);
    if at_kw(s, k) {
        let h = p_case_head(k, s);
        lemma_case_head_le(k, s);
        match h.r {
            Err(e) => {}
            Ok(cond) => {
                let y = p_block(b, h.s);
                lemma_block_le(b, h.s);
                lemma_cases_le(k, b, acc.push(MebbeS { tok: s.cur[0], cond, block: y.b }), y.s);
            }
        }
    }
}
pub broadcast proof fn lemma_cases_start_le(k: Keywords, b: Stop, s: St)
    ensures le(#[trigger] p_cases(k, b, Seq::empty(), s).s, s),
{ lemma_cases_le(k, b, Seq::empty(), s); }
pub proof fn lemma_o_rly_le(t: Token, s: St)
    ensures le(p_o_rly(t, s).s, s),
    decreases s.rest.len(), s.cur.len(), 5int
{
    reveal(p_o_rly); reveal(p_branch); reveal(p_cases);
    broadcast use {lemma_question_le, lemma_close_within};
    let q = p_question(t, s);
    if q.r is Ok {
        let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
        lemma_branch_le(Keywords::YA_RLY, Stop::If, q.s);
        if y.r is Ok {
            let m = p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            lemma_cases_le(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            if m.r is Ok { lemma_branch_le(Keywords::NO_WAI, Stop::If, m.s); }
        }
    }
}
pub proof fn lemma_wtf_le(t: Token, s: St)
    ensures le(p_wtf(t, s).s, s),
    decreases s.rest.len(), s.cur.len(), 5int
{
    reveal(p_wtf); reveal(p_branch); reveal(p_cases);
    broadcast use {lemma_question_le, lemma_close_within};
    let q = p_question(t, s);
    if q.r is Ok {
        let m = p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        lemma_cases_le(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        if m.r is Ok { lemma_branch_le(Keywords::OMGWTF, Stop::Switch, m.s); }
    }
}
pub broadcast group group_le { group_le_small, lemma_block_le, lemma_one_le, lemma_stmt_le, lemma_branch_le, lemma_cases_start_le }

// The definitions without their termination guards.
pub proof fn unfold_block(k: Stop, s: St)
    ensures p_block(k, s) == (if stops(k, s) { PB { b: Seq::empty(), s } } else { p_body(k, Seq::empty(), s) }),
{ reveal(p_block); reveal(p_body); }
pub proof fn unfold_one(s: St)
    ensures p_one(s) == (if s.cur.len() == 0 { PB { b: Seq::empty(), s: next_st(s) } } else { PB { b: one_nodes(p_stmt(s.cur[0], bump(s))), s: next_st(p_stmt(s.cur[0], bump(s)).s) } }),
{ reveal(p_one); reveal(p_stmt); }
pub proof fn unfold_body(k: Stop, acc: Seq<NodeS>, s: St)
    ensures
        p_body(k, acc, s) == ({
            let p = p_one(s);
            if p.s.cur.len() == 0 || stops(k, p.s) { PB { b: acc + p.b, s: p.s } } else { p_body(k, acc + p.b, p.s) }
        }),
{ lemma_one_le(s); reveal(p_body); reveal(p_one); }
pub proof fn unfold_stmt(t: Token, s: St)
    ensures
        p_stmt(t, s) == (
            if is_kw(t, Keywords::IM_IN_YR) { p_im_in_yr(t, s) }
            else if is_kw(t, Keywords::HOW_IZ_I) { p_how_iz_i(t, s) }
            else if is_kw(t, Keywords::WTF) { p_wtf(t, s) }
            else if is_kw(t, Keywords::O_RLY) { p_o_rly(t, s) }
            else { p_simple(t, s) }),
{ reveal(p_stmt); reveal(p_im_in_yr); reveal(p_how_iz_i); reveal(p_wtf); reveal(p_o_rly); }
pub proof fn unfold_im_in_yr(t: Token, s: St)
    ensures
        p_im_in_yr(t, s) == ({
            let h = p_loop_head(t, s);
            match h.r { Err(e) => PR { r: Err(e), s: h.s }, Ok(x) => p_loop_tail(t, x, p_block(Stop::Loop, h.s)) }
        }),
{ lemma_loop_head_le(t, s); reveal(p_im_in_yr); reveal(p_block); }
pub proof fn unfold_how_iz_i(t: Token, s: St)
    ensures
        p_how_iz_i(t, s) == ({
            let h = p_fn_head(t, s);
            match h.r { Err(e) => PR { r: Err(e), s: h.s }, Ok(x) => p_fn_tail(t, x, p_block(Stop::Function, h.s)) }
        }),
{ lemma_fn_head_le(t, s); reveal(p_how_iz_i); reveal(p_block); }
pub broadcast proof fn unfold_branch(k: Keywords, b: Stop, s: St)
    ensures
        #[trigger] p_branch(k, b, s) == (if !at_kw(s, k) { pok(None, s) } else {
            let n = p_end(bump(s));
            match n.r { Err(e) => PR { r: Err(e), s: n.s }, Ok(_) => pok(Some(BranchS { tok: s.cur[0], block: p_block(b, n.s).b }), p_block(b, n.s).s) }
        }),
{ lemma_end_le(bump(s)); reveal(p_branch); reveal(p_block); }
pub proof fn unfold_cases(k: Keywords, b: Stop, acc: Seq<MebbeS>, s: St)
    ensures
        p_cases(k, b, acc, s) == (if !at_kw(s, k) { pok(acc, s) } else {
            let h = p_case_head(k, s);
            match h.r {
                Err(e) => PR { r: Err(e), s: h.s },
                Ok(cond) => p_cases(k, b, acc.push(MebbeS { tok: s.cur[0], cond, block: p_block(b, h.s).b }), p_block(b, h.s).s),
            }
        }),
{ lemma_case_head_le(k, s); lemma_block_le(b, p_case_head(k, s).s); reveal(p_cases); reveal(p_block); }
pub proof fn unfold_o_rly(t: Token, s: St)
    ensures
        p_o_rly(t, s) == ({
            let q = p_question(t, s);
            match q.r {
                Err(e) => PR { r: Err(e), s: q.s },
                Ok(_) => {
                    let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
                    match y.r {
                        Err(e) => PR { r: Err(e), s: y.s },
                        Ok(yes) => {
                            let m = p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
                            match m.r {
                                Err(e) => PR { r: Err(e), s: m.s },
                                Ok(mebbes) => p_if_tail(t, yes, mebbes, p_branch(Keywords::NO_WAI, Stop::If, m.s)),
                            }
                        }
                    }
                }
            }
        }),
{
    lemma_question_le(t, s);
    let q = p_question(t, s);
    let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
    lemma_branch_le(Keywords::YA_RLY, Stop::If, q.s);
    lemma_cases_le(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
    reveal(p_o_rly); reveal(p_branch); reveal(p_cases);
}
pub proof fn unfold_wtf(t: Token, s: St)
    ensures
        p_wtf(t, s) == ({
            let q = p_question(t, s);
            match q.r {
                Err(e) => PR { r: Err(e), s: q.s },
                Ok(_) => {
                    let m = p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
                    match m.r {
                        Err(e) => PR { r: Err(e), s: m.s },
                        Ok(omgs) => p_switch_tail(t, omgs, p_branch(Keywords::OMGWTF, Stop::Switch, m.s)),
                    }
                }
            }
        }),
{
    lemma_question_le(t, s);
    lemma_cases_le(Keywords::OMG, Stop::Switch, Seq::empty(), p_question(t, s).s);
    reveal(p_wtf); reveal(p_branch); reveal(p_cases);
}

pub proof fn unfold_block_all(s: St)
    ensures forall|k: Stop| #[trigger] p_block(k, s) == (if stops(k, s) { PB { b: Seq::empty(), s } } else { p_body(k, Seq::empty(), s) }),
{ assert forall|k: Stop| #[trigger] p_block(k, s) == (if stops(k, s) { PB { b: Seq::empty(), s } } else { p_body(k, Seq::empty(), s) }) by { unfold_block(k, s); } }
pub open spec fn node_of(p: PR<NodeS>) -> NodeS { match p.r { Ok(n) => n, Err(e) => NodeS::Error(e) } }
/// one round of a block
pub proof fn unfold_body_all(acc: Seq<NodeS>, s: St)
    ensures
        s.cur.len() > 0 ==> ({
            let p = p_stmt(s.cur[0], bump(s));
            let acc2 = if p.s.cur.len() > 0 { acc.push(node_of(p)).push(NodeS::Error(ErrS::TooMany(p.s.cur))) } else { acc.push(node_of(p)) };
            &&& lt(next_st(p.s), s)
            &&& forall|k: Stop| #[trigger] p_body(k, acc, s) == (if next_st(p.s).cur.len() == 0 || stops(k, next_st(p.s)) { PB { b: acc2, s: next_st(p.s) } } else { p_body(k, acc2, next_st(p.s)) })
        }),
        s.cur.len() == 0 ==> ({
            &&& next_st(s).cur.len() > 0 ==> lt(next_st(s), s)
            &&& forall|k: Stop| #[trigger] p_body(k, acc, s) == (if next_st(s).cur.len() == 0 || stops(k, next_st(s)) { PB { b: acc, s: next_st(s) } } else { p_body(k, acc, next_st(s)) })
        }),
{
    unfold_one(s);
    lemma_one_le(s);
    let p = p_stmt(s.cur[0], bump(s));
    assert(acc + Seq::<NodeS>::empty() =~= acc);
    assert(acc + seq![node_of(p)] =~= acc.push(node_of(p)));
    assert(acc + seq![node_of(p), NodeS::Error(ErrS::TooMany(p.s.cur))] =~= acc.push(node_of(p)).push(NodeS::Error(ErrS::TooMany(p.s.cur))));
    assert forall|k: Stop| true implies #[trigger] p_body(k, acc, s) == ({
            let p = p_one(s);
            if p.s.cur.len() == 0 || stops(k, p.s) { PB { b: acc + p.b, s: p.s } } else { p_body(k, acc + p.b, p.s) }
        }) by { unfold_body(k, acc, s); }
}

} // verus!
