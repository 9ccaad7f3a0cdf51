// C19, continued: blocks and programs.
verus! {

// ---- blocks
pub open spec fn r_unit(r: Result<(), ErrS>) -> Seq<Token> { match r { Ok(_) => Seq::empty(), Err(e) => y_err(e) } }
pub open spec fn r_loop_op(r: Result<Option<LoopOpS>, ErrS>) -> Seq<Token> { match r { Ok(x) => y_loop_op(x), Err(e) => y_err(e) } }
pub open spec fn r_cond(r: Result<Option<CondS>, ErrS>) -> Seq<Token> { match r { Ok(x) => y_cond(x), Err(e) => y_err(e) } }
pub open spec fn r_params(r: Result<Seq<Identifier>, ErrS>) -> Seq<Token> { match r { Ok(x) => y_paramlist(x), Err(e) => y_err(e) } }
pub open spec fn r_branch(r: Result<Option<BranchS>, ErrS>) -> Seq<Token> { match r { Ok(x) => y_branch(x), Err(e) => y_err(e) } }
pub open spec fn r_cases(r: Result<Seq<MebbeS>, ErrS>) -> Seq<Token> { match r { Ok(x) => y_caselist(x), Err(e) => y_err(e) } }
pub open spec fn y_loop_head(h: LoopHead) -> Seq<Token> { seq![h.label] + y_loop_op(h.op) + y_cond(h.cond) }
pub open spec fn r_loop_head(r: Result<LoopHead, ErrS>) -> Seq<Token> { match r { Ok(h) => y_loop_head(h), Err(e) => y_err(e) } }
pub open spec fn y_fn_head(h: FnHead) -> Seq<Token> { t_ident(h.name) + y_paramlist(h.args) }
pub open spec fn r_fn_head(r: Result<FnHead, ErrS>) -> Seq<Token> { match r { Ok(h) => y_fn_head(h), Err(e) => y_err(e) } }

/// a part after `o`: either both are kept, or only the part (an error), or only what came before
pub proof fn st_then(o: Seq<Token>, s1: St, s0: St, y: Seq<Token>, s2: St)
    requires st(o, s1, s0), st(y, s2, s1),
    ensures st(o + y, s2, s0), st(y, s2, s0), st(o, s2, s0), st(Seq::empty(), s2, s0),
{
    st_seq(o, s1, s0, y, s2);
    sub_add(o, y);
    st_weak(y, o + y, s2, s0);
    sub_before(o, y);
    st_weak(o, o + y, s2, s0);
    st_none(o, s2, s0);
}
pub proof fn lemma_end_y(s: St)
    ensures st(r_unit(p_end(s).r), p_end(s).s, s),
{ st_next(s); }
pub proof fn lemma_close_y(t: Token, k: Keywords, s: St)
    ensures p_close(t, k, s).r is Ok ==> st(Seq::empty(), p_close(t, k, s).s, s), st(r_unit(p_close(t, k, s).r), p_close(t, k, s).s, pre(seq![t], s)),
{
    st_self(s);
    st_bump(s);
    st_pre(seq![t], Seq::empty(), bump(s), s);
    st_none(seq![t], bump(s), pre(seq![t], s));
    if s.cur.len() > 0 { st_pre(seq![t], seq![s.cur[0]], bump(s), s); }
}
pub proof fn lemma_question_y(t: Token, s: St)
    ensures
        p_question(t, s).r is Ok ==> st(Seq::empty(), p_question(t, s).s, s),
        p_question(t, s).r is Err ==> st(r_unit(p_question(t, s).r), p_question(t, s).s, pre(seq![t], s)),
{
    let s1 = bump(s);
    st_bump(s);
    st_pre(seq![t], Seq::empty(), s1, s);
    lemma_end_y(s1);
    st_then(Seq::empty(), s1, s, r_unit(p_end(s1).r), p_end(s1).s);
    st_pre(seq![t], r_unit(p_end(s1).r), p_end(s1).s, s);
}
pub proof fn lemma_loop_op_y(s: St)
    ensures st(r_loop_op(p_loop_op(s).r), p_loop_op(s).s, s),
{
    st_self(s);
    if s.cur.len() > 0 && loop_op(s.cur[0]) is Some {
        let c = seq![s.cur[0]];
        let s1 = bump(s);
        let s2 = bump(s1);
        st_bump(s);
        st_bump(s1);
        st_then(c, s1, s, Seq::empty(), s2);
        if s.cur.len() > 1 { st_then(c, s1, s, seq![s.cur[1]], s2); }
        if s.cur.len() > 2 {
            st_expr(s2);
            let v = p_var(s.cur[2], bump(s2));
            st_then(c, s2, s, r_var(v.r), v.s);
        }
    }
}
pub proof fn lemma_loop_cond_y(s: St)
    ensures st(r_cond(p_loop_cond(s).r), p_loop_cond(s).s, s),
{
    st_self(s);
    st_bump(s);
    if s.cur.len() > 1 {
        let s1 = bump(s);
        st_expr(s1);
        let x = p_expr(s.cur[1], bump(s1));
        st_then(Seq::empty(), s1, s, r_expr(x.r), x.s);
    }
}
pub proof fn lemma_loop_head_y(t: Token, s: St)
    ensures
        p_loop_head(t, s).r is Ok ==> st(r_loop_head(p_loop_head(t, s).r), p_loop_head(t, s).s, s),
        st(y_err_of(p_loop_head(t, s).r), p_loop_head(t, s).s, pre(seq![t], s)),
{
    st_self(s);
    st_pre(seq![t], Seq::empty(), s, s);
    st_none(seq![t], s, pre(seq![t], s));
    st_bump(s);
    if s.cur.len() > 0 {
        let c = seq![s.cur[0]];
        let s1 = bump(s);
        st_pre(seq![t], c, s1, s);
        if is_name(s.cur[0]) {
            let o = p_loop_op(s1);
            lemma_loop_op_y(s1);
            st_then(c, s1, s, r_loop_op(o.r), o.s);
            st_pre(seq![t], r_loop_op(o.r), o.s, s);
            if o.r is Ok {
                let y = c + r_loop_op(o.r);
                let d = p_loop_cond(o.s);
                lemma_loop_cond_y(o.s);
                st_then(y, o.s, s, r_cond(d.r), d.s);
                st_pre(seq![t], r_cond(d.r), d.s, s);
                if d.r is Ok {
                    let z = y + r_cond(d.r);
                    lemma_end_y(d.s);
                    let n = p_end(d.s);
                    st_then(z, d.s, s, r_unit(n.r), n.s);
                    st_pre(seq![t], r_unit(n.r), n.s, s);
                }
            }
        }
    }
}
/// the tokens of the error, if there is one
pub open spec fn y_err_of<T>(r: Result<T, ErrS>) -> Seq<Token> { match r { Ok(_) => Seq::empty(), Err(e) => y_err(e) } }
pub proof fn lemma_params_y(acc: Seq<Identifier>, s: St)
    ensures st(r_params(p_params(acc, s).r), p_params(acc, s).s, pre(y_paramlist(acc), s)),
    decreases s.cur.len()
{
    let o = y_paramlist(acc);
    st_self(s);
    st_bump(s);
    st_pre(o, Seq::empty(), s, s);
    assert(o + Seq::empty() =~= o);
    if !at_kw(s, Keywords::YR) { }
    else if s.cur.len() == 1 { st_pre(o, seq![s.cur[0]], bump(s), s); }
    else {
        let s1 = bump(s);
        let i = p_ident(s.cur[1], bump(s1));
        lemma_ident_within(s.cur[1], bump(s1));
        st_expr(s1);
        st_then(Seq::empty(), s1, s, r_ident(i.r), i.s);
        st_pre(o, r_ident(i.r), i.s, s);
        match i.r {
            Err(e) => {}
            Ok(id) => {
                lemma_y_params_push(acc, id);
                let o2 = o + t_ident(id);
                if at_kw(i.s, Keywords::AN) {
                    let s2 = bump(i.s);
                    st_bump(i.s);
                    st_then(o2, i.s, pre(o, s), Seq::empty(), s2);
                    lemma_params_y(acc.push(id), s2);
                    let p = p_params(acc.push(id), s2);
                    st_pre_trans(o2, s2, pre(o, s), r_params(p.r), p.s);
                }
            }
        }
    }
}
pub proof fn lemma_fn_head_y(t: Token, s: St)
    ensures
        p_fn_head(t, s).r is Ok ==> st(r_fn_head(p_fn_head(t, s).r), p_fn_head(t, s).s, s),
        st(y_err_of(p_fn_head(t, s).r), p_fn_head(t, s).s, pre(seq![t], s)),
{
    st_self(s);
    st_pre(seq![t], Seq::empty(), s, s);
    st_none(seq![t], s, pre(seq![t], s));
    if s.cur.len() > 0 {
        let i = p_ident(s.cur[0], bump(s));
        st_expr(s);
        st_pre(seq![t], r_ident(i.r), i.s, s);
        if i.r is Ok {
            let a = p_params(Seq::empty(), i.s);
            lemma_params_y(Seq::empty(), i.s);
            assert(pre(y_paramlist(Seq::empty()), i.s).cur =~= i.s.cur);
            st_then(r_ident(i.r), i.s, s, r_params(a.r), a.s);
            st_pre(seq![t], r_params(a.r), a.s, s);
            if a.r is Ok {
                let y = r_ident(i.r) + r_params(a.r);
                let n = p_end(a.s);
                lemma_end_y(a.s);
                st_then(y, a.s, s, r_unit(n.r), n.s);
                st_pre(seq![t], r_unit(n.r), n.s, s);
            }
        }
    }
}
pub proof fn lemma_case_head_y(k: Keywords, s: St)
    requires s.cur.len() > 0,
    ensures
        p_case_head(k, s).r is Ok ==> st(seq![s.cur[0]] + r_expr(p_case_head(k, s).r), p_case_head(k, s).s, s),
        st(y_err_of(p_case_head(k, s).r), p_case_head(k, s).s, s),
{
    let c = seq![s.cur[0]];
    let s1 = bump(s);
    st_bump(s);
    if s.cur.len() > 1 {
        let x = p_expr(s.cur[1], bump(s1));
        st_expr(s1);
        st_then(c, s1, s, r_expr(x.r), x.s);
        if x.r is Ok {
            let n = p_end(x.s);
            lemma_end_y(x.s);
            st_then(c + r_expr(x.r), x.s, s, r_unit(n.r), n.s);
        }
    }
}
pub proof fn lemma_block_y(k: Stop, s: St)
    ensures st(y_block(p_block(k, s).b), p_block(k, s).s, s),
    decreases s.rest.len(), s.cur.len(), 3int
{
    unfold_block(k, s);
    st_self(s);
    if !stops(k, s) {
        lemma_body_y(k, Seq::empty(), s);
        assert(pre(y_block(Seq::empty()), s).cur =~= s.cur);
    }
}
pub proof fn lemma_one_y(s: St)
    ensures st(y_block(p_one(s).b), p_one(s).s, s),
    decreases s.rest.len(), s.cur.len(), 1int
{
    unfold_one(s);
    st_next(s);
    if s.cur.len() > 0 {
        let p = p_stmt(s.cur[0], bump(s));
        lemma_stmt_y(s.cur[0], bump(s));
        st_head(s, r_node(p.r), p.s);
        st_next(p.s);
        let y = r_node(p.r);
        st_then(y, p.s, s, Seq::empty(), next_st(p.s));
        st_then(y, p.s, s, p.s.cur, next_st(p.s));
        let n = node_of(p);
        assert(y_node(n) == y);
        let b = Seq::<NodeS>::empty();
        assert(y_block(b) =~= Seq::empty());
        lemma_y_nodes_push(b, n);
        let e = NodeS::Error(ErrS::TooMany(p.s.cur));
        lemma_y_nodes_push(b.push(n), e);
        assert(one_nodes(p) =~= if p.s.cur.len() > 0 { b.push(n).push(e) } else { b.push(n) });
        assert(Seq::empty() + y =~= y);
    }
}
pub proof fn lemma_block_add(a: Seq<NodeS>, b: Seq<NodeS>)
    ensures y_block(a + b) == y_block(a) + y_block(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(y_block(a) + y_block(b) =~= y_block(a)); }
    else {
        let c = b.drop_last();
        lemma_block_add(a, c);
        assert(a + b =~= (a + c).push(b.last()));
        assert(b =~= c.push(b.last()));
        lemma_y_nodes_push(a + c, b.last());
        lemma_y_nodes_push(c, b.last());
        assert(y_block(a) + y_block(c) + y_node(b.last()) =~= y_block(a) + (y_block(c) + y_node(b.last())));
    }
}
pub proof fn lemma_body_y(k: Stop, acc: Seq<NodeS>, s: St)
    ensures st(y_block(p_body(k, acc, s).b), p_body(k, acc, s).s, pre(y_block(acc), s)),
    decreases s.rest.len(), s.cur.len(), 2int
{
    unfold_body(k, acc, s);
    let o = y_block(acc);
    let p = p_one(s);
    lemma_one_y(s);
    lemma_one_le(s);
    lemma_block_add(acc, p.b);
    st_pre(o, y_block(p.b), p.s, s);
    if p.s.cur.len() == 0 || stops(k, p.s) { }
    else {
        lemma_body_y(k, acc + p.b, p.s);
        let q = p_body(k, acc + p.b, p.s);
        st_pre_trans(y_block(acc + p.b), p.s, pre(o, s), y_block(q.b), q.s);
    }
}
pub proof fn lemma_stmt_y(t: Token, s: St)
    ensures st(r_node(p_stmt(t, s).r), p_stmt(t, s).s, pre(seq![t], s)),
    decreases s.rest.len(), s.cur.len(), 10int
{
    unfold_stmt(t, s);
    if is_kw(t, Keywords::IM_IN_YR) { lemma_im_in_yr_y(t, s); }
    else if is_kw(t, Keywords::HOW_IZ_I) { lemma_how_iz_i_y(t, s); }
    else if is_kw(t, Keywords::WTF) { lemma_wtf_y(t, s); }
    else if is_kw(t, Keywords::O_RLY) { lemma_o_rly_y(t, s); }
    else { lemma_simple_y(t, s); }
}
pub proof fn lemma_im_in_yr_y(t: Token, s: St)
    ensures st(r_node(p_im_in_yr(t, s).r), p_im_in_yr(t, s).s, pre(seq![t], s)),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_im_in_yr(t, s);
    let h = p_loop_head(t, s);
    lemma_loop_head_y(t, s);
    lemma_loop_head_le(t, s);
    match h.r {
        Err(e) => {}
        Ok(x) => {
            let b = p_block(Stop::Loop, h.s);
            lemma_block_y(Stop::Loop, h.s);
            let y0 = y_loop_head(x);
            let y1 = y0 + y_block(b.b);
            st_then(y0, h.s, s, y_block(b.b), b.s);
            st_pre(seq![t], y1, b.s, s);
            st_bump(b.s);
            if b.s.cur.len() > 0 {
                let s1 = bump(b.s);
                st_then(y1, b.s, s, Seq::empty(), s1);
                st_then(y1, b.s, s, seq![b.s.cur[0]], s1);
                st_pre(seq![t], seq![b.s.cur[0]], s1, s);
                if b.s.cur.len() > 1 {
                    st_bump(s1);
                    st_then(y1, s1, s, seq![b.s.cur[1]], bump(s1));
                    st_pre(seq![t], seq![b.s.cur[1]], bump(s1), s);
                    st_pre(seq![t], y1 + seq![b.s.cur[1]], bump(s1), s);
                    if is_name(b.s.cur[1]) {
                        assert(seq![t] + (y1 + seq![b.s.cur[1]]) =~= y_node(NodeS::ImInYr(t, x.label, x.op, x.cond, b.b, b.s.cur[1])));
                    }
                }
            }
        }
    }
}
pub proof fn lemma_how_iz_i_y(t: Token, s: St)
    ensures st(r_node(p_how_iz_i(t, s).r), p_how_iz_i(t, s).s, pre(seq![t], s)),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_how_iz_i(t, s);
    let h = p_fn_head(t, s);
    lemma_fn_head_y(t, s);
    lemma_fn_head_le(t, s);
    match h.r {
        Err(e) => {}
        Ok(x) => {
            let b = p_block(Stop::Function, h.s);
            lemma_block_y(Stop::Function, h.s);
            let y0 = y_fn_head(x);
            let y1 = y0 + y_block(b.b);
            st_then(y0, h.s, s, y_block(b.b), b.s);
            let c = p_close(t, Keywords::IF_U_SAY_SO, b.s);
            lemma_close_y(t, Keywords::IF_U_SAY_SO, b.s);
            st_close(t, y1, b.s, s, c);
            if c.r is Ok { assert(seq![t] + y1 =~= y_node(NodeS::HowIzI(t, x.name, x.args, b.b))); }
        }
    }
}
/// the closing keyword after `y`, in a block opened by `t`
pub proof fn st_close(t: Token, y: Seq<Token>, s1: St, s0: St, c: PR<()>)
    requires st(y, s1, s0), c.r is Ok ==> st(Seq::empty(), c.s, s1), st(r_unit(c.r), c.s, pre(seq![t], s1)),
    ensures c.r is Ok ==> st(seq![t] + y, c.s, pre(seq![t], s0)), c.r is Err ==> st(r_unit(c.r), c.s, pre(seq![t], s0)),
{
    if c.r is Ok { st_then(y, s1, s0, Seq::empty(), c.s); assert(y + Seq::empty() =~= y); st_pre(seq![t], y, c.s, s0); }
    else {
        st_none(y, s1, s0);
        st_pre(seq![t], Seq::empty(), s1, s0);
        assert(seq![t] + Seq::empty() =~= seq![t]);
        st_pre_trans(seq![t], s1, pre(seq![t], s0), r_unit(c.r), c.s);
    }
}
pub proof fn lemma_branch_y(k: Keywords, x: Stop, s: St)
    ensures st(r_branch(p_branch(k, x, s).r), p_branch(k, x, s).s, s),
    decreases s.rest.len(), s.cur.len(), 4int
{
    unfold_branch(k, x, s);
    st_self(s);
    if at_kw(s, k) {
        let s1 = bump(s);
        st_bump(s);
        let n = p_end(s1);
        lemma_end_y(s1);
        lemma_end_le(s1);
        let c = seq![s.cur[0]];
        st_then(c, s1, s, r_unit(n.r), n.s);
        if n.r is Ok {
            let b = p_block(x, n.s);
            lemma_block_y(x, n.s);
            st_then(c, n.s, s, y_block(b.b), b.s);
        }
    }
}
pub proof fn lemma_cases_y(k: Keywords, x: Stop, acc: Seq<MebbeS>, s: St)
    ensures st(r_cases(p_cases(k, x, acc, s).r), p_cases(k, x, acc, s).s, pre(y_caselist(acc), s)),
    decreases s.rest.len(), s.cur.len(), 4int
{
    unfold_cases(k, x, acc, s);
    let o = y_caselist(acc);
    st_self(s);
    st_pre(o, Seq::empty(), s, s);
    if at_kw(s, k) {
        let h = p_case_head(k, s);
        lemma_case_head_y(k, s);
        lemma_case_head_le(k, s);
        st_pre(o, y_err_of(h.r), h.s, s);
        match h.r {
            Err(e) => {}
            Ok(cond) => {
                let y = p_block(x, h.s);
                lemma_block_y(x, h.s);
                lemma_block_le(x, h.s);
                let m = MebbeS { tok: s.cur[0], cond, block: y.b };
                st_then(seq![s.cur[0]] + t_expr(cond), h.s, s, y_block(y.b), y.s);
                st_pre(o, y_case(m), y.s, s);
                lemma_y_cases_push(acc, m);
                lemma_cases_y(k, x, acc.push(m), y.s);
                let q = p_cases(k, x, acc.push(m), y.s);
                st_pre_trans(o + y_case(m), y.s, pre(o, s), r_cases(q.r), q.s);
            }
        }
    }
}
pub proof fn lemma_o_rly_y(t: Token, s: St)
    ensures st(r_node(p_o_rly(t, s).r), p_o_rly(t, s).s, pre(seq![t], s)),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_o_rly(t, s);
    let o = seq![t];
    let q = p_question(t, s);
    lemma_question_y(t, s);
    lemma_question_le(t, s);
    if q.r is Ok {
        let y = p_branch(Keywords::YA_RLY, Stop::If, q.s);
        lemma_branch_y(Keywords::YA_RLY, Stop::If, q.s);
        lemma_branch_le(Keywords::YA_RLY, Stop::If, q.s);
        st_then(Seq::empty(), q.s, s, r_branch(y.r), y.s);
        st_pre(o, r_branch(y.r), y.s, s);
        if y.r is Ok {
            let y1 = r_branch(y.r);
            let m = p_cases(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            lemma_cases_y(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            lemma_cases_le(Keywords::MEBBE, Stop::If, Seq::empty(), y.s);
            assert(pre(y_caselist(Seq::empty()), y.s).cur =~= y.s.cur);
            st_then(y1, y.s, s, r_cases(m.r), m.s);
            st_pre(o, r_cases(m.r), m.s, s);
            if m.r is Ok {
                let y2 = y1 + r_cases(m.r);
                let n = p_branch(Keywords::NO_WAI, Stop::If, m.s);
                lemma_branch_y(Keywords::NO_WAI, Stop::If, m.s);
                st_then(y2, m.s, s, r_branch(n.r), n.s);
                st_pre(o, r_branch(n.r), n.s, s);
                if n.r is Ok {
                    let y3 = y2 + r_branch(n.r);
                    let c = p_close(t, Keywords::OIC, n.s);
                    lemma_close_y(t, Keywords::OIC, n.s);
                    st_close(t, y3, n.s, s, c);
                    if c.r is Ok { assert(seq![t] + y3 =~= y_node(NodeS::ORly(t, y.r->Ok_0, m.r->Ok_0, n.r->Ok_0))); }
                }
            }
        }
    }
}
pub proof fn lemma_wtf_y(t: Token, s: St)
    ensures st(r_node(p_wtf(t, s).r), p_wtf(t, s).s, pre(seq![t], s)),
    decreases s.rest.len(), s.cur.len(), 5int
{
    unfold_wtf(t, s);
    let o = seq![t];
    let q = p_question(t, s);
    lemma_question_y(t, s);
    lemma_question_le(t, s);
    if q.r is Ok {
        let m = p_cases(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        lemma_cases_y(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        lemma_cases_le(Keywords::OMG, Stop::Switch, Seq::empty(), q.s);
        assert(pre(y_caselist(Seq::empty()), q.s).cur =~= q.s.cur);
        st_then(Seq::empty(), q.s, s, r_cases(m.r), m.s);
        st_pre(o, r_cases(m.r), m.s, s);
        if m.r is Ok {
            let y2 = r_cases(m.r);
            let n = p_branch(Keywords::OMGWTF, Stop::Switch, m.s);
            lemma_branch_y(Keywords::OMGWTF, Stop::Switch, m.s);
            st_then(Seq::empty() + y2, m.s, s, r_branch(n.r), n.s);
            st_pre(o, r_branch(n.r), n.s, s);
            if n.r is Ok {
                assert(Seq::empty() + y2 =~= y2);
                let y3 = y2 + r_branch(n.r);
                let c = p_close(t, Keywords::OIC, n.s);
                lemma_close_y(t, Keywords::OIC, n.s);
                st_close(t, y3, n.s, s, c);
                if c.r is Ok { assert(seq![t] + y3 =~= y_node(NodeS::Wtf(t, m.r->Ok_0, n.r->Ok_0))); }
            }
        }
    }
}

// ---- programs
pub proof fn lemma_stmt_sub(raw: Seq<Token>, line: i32)
    ensures is_sub(stmt(raw, line) + after(raw, line), raw),
    decreases raw.len()
{
    sub_refl(raw);
    if raw.len() == 0 || is_comma(raw[0]) || start_line(raw[0]) != line { assert(stmt(raw, line) + after(raw, line) =~= raw); }
    else {
        let r = raw.drop_first();
        if is_ellipsis(raw[0]) {
            lemma_stmt_sub(r, joined_line(r, line));
            sub_add(seq![raw[0]], r);
            assert(seq![raw[0]] + r =~= raw);
            sub_trans(stmt(raw, line) + after(raw, line), r, raw);
        } else {
            let l = end_line(raw[0]);
            lemma_stmt_sub(r, l);
            sub_left(seq![raw[0]], stmt(r, l) + after(r, l), r);
            assert(seq![raw[0]] + r =~= raw);
            assert(seq![raw[0]] + (stmt(r, l) + after(r, l)) =~= stmt(raw, line) + after(raw, line));
        }
    }
}
pub proof fn lemma_skip_sub(raw: Seq<Token>)
    ensures is_sub(skip_separators(raw), raw),
    decreases raw.len()
{
    sub_refl(raw);
    if raw.len() > 0 && is_separator(raw[0]) {
        lemma_skip_sub(raw.drop_first());
        sub_add(seq![raw[0]], raw.drop_first());
        assert(seq![raw[0]] + raw.drop_first() =~= raw);
        sub_trans(skip_separators(raw), raw.drop_first(), raw);
    }
}
pub proof fn lemma_split_sub(raw: Seq<Token>)
    ensures is_sub(flat(split(raw)), raw),
    decreases raw.len()
{
    let s = skip_separators(raw);
    lemma_skip_sub(raw);
    lemma_skip_len(raw);
    lemma_split(raw);
    if s.len() > 0 {
        let l = first_line(s);
        let r = after(s, l);
        lemma_after_len(s, l);
        lemma_split_sub(r);
        lemma_stmt_sub(s, l);
        assert(split(raw).drop_first() =~= split(r));
        sub_left(stmt(s, l), flat(split(r)), r);
        sub_trans(stmt(s, l) + flat(split(r)), stmt(s, l) + r, s);
        sub_trans(flat(split(raw)), s, raw);
    }
}
pub proof fn lemma_filter_sub(s: Seq<Token>, p: spec_fn(Token) -> bool)
    ensures is_sub(s.filter(p), s),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        let l = seq![s.last()];
        lemma_filter_sub(r, p);
        sub_right(r.filter(p), r, l);
        assert(r + l =~= s);
        if p(s.last()) { assert(s.filter(p) =~= r.filter(p) + l); }
        else { sub_before(r, l); sub_trans(r.filter(p), r, s); }
    }
}
/// C19
pub proof fn theorem_c19(t: Seq<Token>)
    ensures is_sub(y_block(p_program(t)), no_comments(t)), is_sub(y_block(p_program(t)), t),
{
    let raw = no_comments(t);
    let l = first_line(raw);
    let s = st_of(raw, l);
    let b = p_block(Stop::Program, s);
    lemma_block_y(Stop::Program, s);
    reveal(st);
    sub_before(y_block(b.b), all(b.s));
    sub_trans(y_block(b.b), y_block(b.b) + all(b.s), all(s));
    lemma_split_sub(after(raw, l));
    sub_left(stmt(raw, l), flat(split(after(raw, l))), after(raw, l));
    lemma_stmt_sub(raw, l);
    sub_trans(all(s), stmt(raw, l) + after(raw, l), raw);
    sub_trans(y_block(b.b), all(s), raw);
    lemma_filter_sub(t, |x: Token| !is_comment(x));
    sub_trans(y_block(b.b), raw, t);
}

} // verus!
