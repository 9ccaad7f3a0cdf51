// C19: the tokens of a program's nodes, errors included, are tokens of the input, in order, each once.
verus! {

// ---- the tokens found in a node, in the order of its parts
pub open spec fn y_expr_err(e: ExpressionError) -> Token { match e { ExpressionError::MissingOperands(t) => t } }
/// the token of an error that has one
pub open spec fn y_err_tok(e: ASTErrorType) -> Token {
    match e {
        ASTErrorType::UnexpectedToken(t) => t,
        ASTErrorType::TooManyTokens(v) => arbitrary(),
        ASTErrorType::MissingToken(t) => t,
        ASTErrorType::MissingBlockClosingToken(t) => t,
        ASTErrorType::IHasA(e) => match e { IHasAError::InvalidIdentifier(t) => t, IHasAError::MissingIdentifier(t) => t, IHasAError::ExpectedInitialValue(t) => t },
        ASTErrorType::VariableAssignment(e) => match e { VariableAssignmentError::MissingR(t) => t, VariableAssignmentError::ExpectedValue(t) => t },
        ASTErrorType::Expression(e) => y_expr_err(e),
        ASTErrorType::ORly(e) => match e { ORlyError::MissingQuestionMark(t) => t, ORlyError::MissingMebbeExpression(t) => t },
        ASTErrorType::HowIsI(e) => match e { HowIsIError::MissingNameIdentifier(t) => t },
        ASTErrorType::ImInYr(e) => match e {
            ImInYrError::MissingYr(t) => t,
            ImInYrError::MissingStartLabel(t) => t,
            ImInYrError::InvalidStartLabel(t) => t,
            ImInYrError::MissingEndLabel(t) => t,
            ImInYrError::InvalidEndLabel(t) => t,
            ImInYrError::MissingImOuttaYr(t) => t,
            ImInYrError::InvalidOperation(t) => t,
            ImInYrError::MissingOperand(t) => t,
            ImInYrError::InvalidConditional(t) => t,
            ImInYrError::MissingConditionalExpression(t) => t,
        },
        ASTErrorType::IIz(e) => match e { IIzError::MissingName(t) => t, IIzError::MissingArgument(t) => t, IIzError::MissingMkay(t) => t },
    }
}
pub open spec fn y_err(e: ErrS) -> Seq<Token> { match e { ErrS::TooMany(v) => v, ErrS::One(e) => seq![y_err_tok(e)] } }
pub open spec fn y_exprs(s: Seq<ExprS>, n: int) -> Seq<Token>
    decreases n
{ if 0 < n <= s.len() { y_exprs(s, n - 1) + t_expr(s[n - 1]) } else { Seq::empty() } }
pub open spec fn y_params(s: Seq<Identifier>, n: int) -> Seq<Token>
    decreases n
{ if 0 < n <= s.len() { y_params(s, n - 1) + t_ident(s[n - 1]) } else { Seq::empty() } }
pub open spec fn y_init(i: Option<InitS>) -> Seq<Token> {
    match i { None => Seq::empty(), Some(InitS::Expr(e)) => t_expr(e), Some(InitS::Type(t)) => seq![type_tok(t)] }
}
pub open spec fn y_loop_op(o: Option<LoopOpS>) -> Seq<Token> {
    match o { None => Seq::empty(), Some(o) => seq![match o.op { LoopOperation::UPPIN(t) => t, LoopOperation::NERFIN(t) => t }] + t_var(o.var) }
}
pub open spec fn y_cond(c: Option<CondS>) -> Seq<Token> {
    match c { None => Seq::empty(), Some(CondS::Til(e)) => t_expr(e), Some(CondS::Wile(e)) => t_expr(e) }
}
pub open spec fn y_node(n: NodeS) -> Seq<Token>
    decreases n, 0int
{
    match n {
        NodeS::Hai(t, v) => seq![t] + v,
        NodeS::KThxBye(t) => seq![t],
        NodeS::Gtfo(t) => seq![t],
        NodeS::FoundYr(t, e) => seq![t] + t_expr(e),
        NodeS::Gimmeh(t, v) => seq![t] + t_var(v),
        NodeS::Visible(t, es, x) => seq![t] + y_exprs(es, es.len() as int) + opt_seq(x),
        NodeS::IHasA(t, i, x) => seq![t] + t_ident(i) + y_init(x),
        NodeS::IIz(t, v, es) => seq![t] + t_var(v) + y_exprs(es, es.len() as int),
        NodeS::Assign(v, r, e) => t_var(v) + seq![r] + t_expr(e),
        NodeS::SlotSet(v, i, e) => t_var(v) + t_ident(i) + t_expr(e),
        NodeS::Expr(e) => t_expr(e),
        NodeS::ImInYr(t, l, o, c, b, e) => seq![t, l] + y_loop_op(o) + y_cond(c) + y_nodes(b, b.len() as int) + seq![e],
        NodeS::HowIzI(t, i, ps, b) => seq![t] + t_ident(i) + y_params(ps, ps.len() as int) + y_nodes(b, b.len() as int),
        NodeS::ORly(t, y, ms, n) => seq![t] + y_branch(y) + y_cases(ms, ms.len() as int) + y_branch(n),
        NodeS::Wtf(t, ms, n) => seq![t] + y_cases(ms, ms.len() as int) + y_branch(n),
        NodeS::Error(e) => y_err(e),
    }
}
pub open spec fn y_nodes(s: Seq<NodeS>, n: int) -> Seq<Token>
    decreases s, n
{ if 0 < n <= s.len() { y_nodes(s, n - 1) + y_node(s[n - 1]) } else { Seq::empty() } }
pub open spec fn y_branch(b: Option<BranchS>) -> Seq<Token>
    decreases b, 0int
{ match b { None => Seq::empty(), Some(x) => seq![x.tok] + y_nodes(x.block, x.block.len() as int) } }
pub open spec fn y_case(m: MebbeS) -> Seq<Token>
    decreases m, 0int
{ seq![m.tok] + t_expr(m.cond) + y_nodes(m.block, m.block.len() as int) }
pub open spec fn y_cases(s: Seq<MebbeS>, n: int) -> Seq<Token>
    decreases s, n
{ if 0 < n <= s.len() { y_cases(s, n - 1) + y_case(s[n - 1]) } else { Seq::empty() } }
/// the tokens of a block
pub open spec fn y_block(b: Seq<NodeS>) -> Seq<Token> { y_nodes(b, b.len() as int) }
pub open spec fn y_caselist(b: Seq<MebbeS>) -> Seq<Token> { y_cases(b, b.len() as int) }
pub open spec fn y_exprlist(b: Seq<ExprS>) -> Seq<Token> { y_exprs(b, b.len() as int) }
pub open spec fn y_paramlist(b: Seq<Identifier>) -> Seq<Token> { y_params(b, b.len() as int) }

// ---- subsequences
/// the tokens of `a` are among those of `b`, in the same order, at different places
pub open spec fn is_sub(a: Seq<Token>, b: Seq<Token>) -> bool
    decreases b.len()
{
    a.len() == 0 || (b.len() > 0 && ((a[0] == b[0] && is_sub(a.drop_first(), b.drop_first())) || is_sub(a, b.drop_first())))
}
pub proof fn sub_drop(a: Seq<Token>, b: Seq<Token>)
    requires is_sub(a, b), a.len() > 0,
    ensures is_sub(a.drop_first(), b),
    decreases b.len()
{
    let c = a.drop_first();
    if a[0] == b[0] && is_sub(c, b.drop_first()) { if c.len() > 0 { } }
    else { sub_drop(a, b.drop_first()); }
}
pub proof fn sub_trans(a: Seq<Token>, b: Seq<Token>, c: Seq<Token>)
    requires is_sub(a, b), is_sub(b, c),
    ensures is_sub(a, c),
    decreases c.len()
{
    if a.len() == 0 { }
    else if is_sub(b, c.drop_first()) { sub_trans(a, b, c.drop_first()); }
    else {
        assert(b[0] == c[0] && is_sub(b.drop_first(), c.drop_first()));
        if is_sub(a, b.drop_first()) { sub_trans(a, b.drop_first(), c.drop_first()); }
        else { sub_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
    }
}
pub proof fn sub_left(x: Seq<Token>, a: Seq<Token>, b: Seq<Token>)
    requires is_sub(a, b),
    ensures is_sub(x + a, x + b),
    decreases x.len()
{
    if x.len() == 0 { assert(x + a =~= a); assert(x + b =~= b); }
    else {
        sub_left(x.drop_first(), a, b);
        assert((x + a).drop_first() =~= x.drop_first() + a);
        assert((x + b).drop_first() =~= x.drop_first() + b);
    }
}
pub proof fn sub_right(a: Seq<Token>, b: Seq<Token>, x: Seq<Token>)
    requires is_sub(a, b),
    ensures is_sub(a + x, b + x),
    decreases b.len()
{
    if a.len() == 0 { assert(a + x =~= x); sub_add(b, x); }
    else {
        assert((a + x).drop_first() =~= a.drop_first() + x);
        assert((b + x).drop_first() =~= b.drop_first() + x);
        if a[0] == b[0] && is_sub(a.drop_first(), b.drop_first()) { sub_right(a.drop_first(), b.drop_first(), x); }
        else { sub_right(a, b.drop_first(), x); }
    }
}
pub proof fn sub_refl(a: Seq<Token>)
    ensures is_sub(a, a),
    decreases a.len()
{ if a.len() > 0 { sub_refl(a.drop_first()); } }
pub proof fn sub_add(x: Seq<Token>, a: Seq<Token>)
    ensures is_sub(a, x + a),
    decreases x.len()
{
    if x.len() == 0 { assert(x + a =~= a); sub_refl(a); }
    else { sub_add(x.drop_first(), a); assert((x + a).drop_first() =~= x.drop_first() + a); }
}
pub proof fn sub_before(a: Seq<Token>, x: Seq<Token>)
    ensures is_sub(a, a + x),
{ sub_left(a, Seq::empty(), x); assert(a + Seq::empty() =~= a); }
pub proof fn sub_one(b: Seq<Token>, i: int)
    requires 0 <= i < b.len(),
    ensures is_sub(seq![b[i]], b),
    decreases b.len()
{
    let a = seq![b[i]];
    if i == 0 { assert(is_sub(a.drop_first(), b.drop_first())); }
    else { sub_one(b.drop_first(), i - 1); }
}
/// what `is_sub` means
pub proof fn sub_means(a: Seq<Token>, b: Seq<Token>) -> (f: Seq<int>)
    requires is_sub(a, b),
    ensures
        f.len() == a.len(),
        forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] f[i] < b.len() && a[i] == b[f[i]],
        forall|i: int, j: int| 0 <= i < j < a.len() ==> f[i] < f[j],
    decreases b.len()
{
    if a.len() == 0 { Seq::empty() }
    else if a[0] == b[0] && is_sub(a.drop_first(), b.drop_first()) {
        let g = sub_means(a.drop_first(), b.drop_first());
        let f = seq![0int] + Seq::new(g.len(), |i: int| g[i] + 1);
        assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] f[i] < b.len() && a[i] == b[f[i]] by {
            if i > 0 { assert(f[i] == g[i - 1] + 1); assert(a[i] == a.drop_first()[i - 1]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies f[i] < f[j] by {
            assert(f[j] == g[j - 1] + 1);
            if i > 0 { assert(f[i] == g[i - 1] + 1); assert(g[i - 1] < g[j - 1]); }
        }
        f
    } else {
        let g = sub_means(a, b.drop_first());
        Seq::new(g.len(), |i: int| g[i] + 1)
    }
}

// ---- what is left to parse, as tokens
pub open spec fn flat(r: Seq<Seq<Token>>) -> Seq<Token>
    decreases r.len()
{ if r.len() > 0 { r[0] + flat(r.drop_first()) } else { Seq::empty() } }
pub open spec fn all(s: St) -> Seq<Token> { s.cur + flat(s.rest) }
/// from `s0`, the tokens `y` were taken (others were dropped), which led to `s1`
#[verifier::opaque]
pub open spec fn st(y: Seq<Token>, s1: St, s0: St) -> bool { is_sub(y + all(s1), all(s0)) }
pub open spec fn pre(x: Seq<Token>, s: St) -> St { St { cur: x + s.cur, rest: s.rest } }
pub proof fn lemma_all_pre(x: Seq<Token>, s: St)
    ensures all(pre(x, s)) == x + all(s),
{ assert(all(pre(x, s)) =~= x + all(s)); }
pub proof fn st_seq(y1: Seq<Token>, s1: St, s0: St, y2: Seq<Token>, s2: St)
    requires st(y1, s1, s0), st(y2, s2, s1),
    ensures st(y1 + y2, s2, s0),
{
    reveal(st);
    sub_left(y1, y2 + all(s2), all(s1));
    assert(y1 + (y2 + all(s2)) =~= y1 + y2 + all(s2));
    sub_trans(y1 + y2 + all(s2), y1 + all(s1), all(s0));
}
pub proof fn st_weak(z: Seq<Token>, y: Seq<Token>, s1: St, s0: St)
    requires is_sub(z, y), st(y, s1, s0),
    ensures st(z, s1, s0),
{
    reveal(st);
    sub_right(z, y, all(s1));
    sub_trans(z + all(s1), y + all(s1), all(s0));
}
/// drops what was taken
pub proof fn st_none(y: Seq<Token>, s1: St, s0: St)
    requires st(y, s1, s0),
    ensures st(Seq::empty(), s1, s0),
{ st_weak(Seq::empty(), y, s1, s0); }
/// what comes before stays before
pub proof fn st_pre(x: Seq<Token>, y: Seq<Token>, s1: St, s0: St)
    requires st(y, s1, s0),
    ensures st(x + y, s1, pre(x, s0)), st(y, s1, pre(x, s0)), st(x, s1, pre(x, s0)),
{
    reveal(st);
    lemma_all_pre(x, s0);
    sub_left(x, y + all(s1), all(s0));
    assert(x + (y + all(s1)) =~= x + y + all(s1));
    sub_add(x, y);
    st_weak(y, x + y, s1, pre(x, s0));
    sub_before(x, y);
    st_weak(x, x + y, s1, pre(x, s0));
}
pub proof fn st_pre_trans(y1: Seq<Token>, s1: St, s0: St, y2: Seq<Token>, s2: St)
    requires st(y1, s1, s0), st(y2, s2, pre(y1, s1)),
    ensures st(y2, s2, s0),
{
    reveal(st);
    lemma_all_pre(y1, s1);
    sub_trans(y2 + all(s2), y1 + all(s1), all(s0));
}
pub proof fn st_self(s: St)
    ensures st(Seq::empty(), s, s),
{ reveal(st); sub_refl(all(s)); assert(Seq::empty() + all(s) =~= all(s)); }
pub proof fn st_bump(s: St)
    ensures st(Seq::empty(), bump(s), s), s.cur.len() > 0 ==> st(seq![s.cur[0]], bump(s), s) && pre(seq![s.cur[0]], bump(s)) == s,
{
    if s.cur.len() == 0 { st_self(s); }
    else {
        assert(pre(seq![s.cur[0]], bump(s)).cur =~= s.cur);
        st_self(bump(s));
        st_pre(seq![s.cur[0]], Seq::empty(), bump(s), bump(s));
    }
}
pub proof fn st_next(s: St)
    ensures st(Seq::empty(), next_st(s), s), st(s.cur, next_st(s), s), st(s.cur, St { cur: Seq::empty(), rest: s.rest }, s),
{
    let z = St { cur: Seq::empty(), rest: s.rest };
    reveal(st);
    assert(all(next_st(s)) =~= flat(s.rest));
    assert(all(z) =~= flat(s.rest));
    sub_refl(all(s));
    st_none(s.cur, next_st(s), s);
}
pub proof fn st_kw(s: St, k: Keywords)
    ensures st(opt_seq(opt_kw(s, k)), skip_kw(s, k), s), st(Seq::empty(), skip_kw(s, k), s),
{ st_bump(s); st_self(s); }

// ---- lists grow at their end
pub proof fn lemma_t_slots_push(a: Seq<VariableAccessSlot>, x: VariableAccessSlot, i: int)
    requires 0 <= i <= a.len(),
    ensures t_slots(a.push(x), i) == t_slots(a, i) + t_slot(x),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_t_slots_push(a, x, i + 1);
        assert(t_slot(a[i]) + (t_slots(a, i + 1) + t_slot(x)) =~= t_slot(a[i]) + t_slots(a, i + 1) + t_slot(x));
    } else {
        assert(t_slots(a.push(x), i + 1) =~= Seq::empty());
        assert(t_slots(a.push(x), i) =~= t_slots(a, i) + t_slot(x));
    }
}
pub proof fn lemma_t_ops_push(a: Seq<OperandS>, x: OperandS, i: int)
    requires 0 <= i <= a.len(),
    ensures t_ops(a.push(x), i) == t_ops(a, i) + t_op(x),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_t_ops_push(a, x, i + 1);
        assert(t_op(a[i]) + (t_ops(a, i + 1) + t_op(x)) =~= t_op(a[i]) + t_ops(a, i + 1) + t_op(x));
    } else {
        assert(t_ops(a.push(x), i + 1) =~= Seq::empty());
        assert(t_ops(a.push(x), i) =~= t_ops(a, i) + t_op(x));
    }
}
pub proof fn lemma_y_exprs_same(a: Seq<ExprS>, x: ExprS, n: int)
    requires n <= a.len(),
    ensures y_exprs(a.push(x), n) == y_exprs(a, n),
    decreases n
{ if n > 0 { lemma_y_exprs_same(a, x, n - 1); } }
pub proof fn lemma_y_exprs_push(a: Seq<ExprS>, x: ExprS)
    ensures y_exprlist(a.push(x)) == y_exprlist(a) + t_expr(x),
{ lemma_y_exprs_same(a, x, a.len() as int); }
pub proof fn lemma_y_params_same(a: Seq<Identifier>, x: Identifier, n: int)
    requires n <= a.len(),
    ensures y_params(a.push(x), n) == y_params(a, n),
    decreases n
{ if n > 0 { lemma_y_params_same(a, x, n - 1); } }
pub proof fn lemma_y_params_push(a: Seq<Identifier>, x: Identifier)
    ensures y_paramlist(a.push(x)) == y_paramlist(a) + t_ident(x),
{ lemma_y_params_same(a, x, a.len() as int); }
pub proof fn lemma_y_nodes_same(a: Seq<NodeS>, x: NodeS, n: int)
    requires n <= a.len(),
    ensures y_nodes(a.push(x), n) == y_nodes(a, n),
    decreases n
{ if n > 0 { lemma_y_nodes_same(a, x, n - 1); } }
pub proof fn lemma_y_nodes_push(a: Seq<NodeS>, x: NodeS)
    ensures y_block(a.push(x)) == y_block(a) + y_node(x),
{ lemma_y_nodes_same(a, x, a.len() as int); }
pub proof fn lemma_y_cases_same(a: Seq<MebbeS>, x: MebbeS, n: int)
    requires n <= a.len(),
    ensures y_cases(a.push(x), n) == y_cases(a, n),
    decreases n
{ if n > 0 { lemma_y_cases_same(a, x, n - 1); } }
pub proof fn lemma_y_cases_push(a: Seq<MebbeS>, x: MebbeS)
    ensures y_caselist(a.push(x)) == y_caselist(a) + y_case(x),
{ lemma_y_cases_same(a, x, a.len() as int); }


// ---- within a statement
pub open spec fn one(e: ASTErrorType) -> Seq<Token> { seq![y_err_tok(e)] }
pub open spec fn r_ident(r: Result<Identifier, ErrS>) -> Seq<Token> { match r { Ok(x) => t_ident(x), Err(e) => y_err(e) } }
pub open spec fn r_var(r: Result<VarS, ErrS>) -> Seq<Token> { match r { Ok(x) => t_var(x), Err(e) => y_err(e) } }
pub open spec fn r_expr(r: Result<ExprS, ErrS>) -> Seq<Token> { match r { Ok(x) => t_expr(x), Err(e) => y_err(e) } }
pub open spec fn r_node(r: Result<NodeS, ErrS>) -> Seq<Token> { match r { Ok(x) => y_node(x), Err(e) => y_err(e) } }

pub proof fn lemma_ident_y(t: Token, s: St)
    ensures st(r_ident(p_ident(t, s).r), p_ident(t, s).s, pre(seq![t], s)),
{
    let i = p_ident(t, s);
    st_self(s);
    st_bump(s);
    st_pre(seq![t], Seq::empty(), s, s);
    if is_name(t) { assert(t_ident(i.r->Ok_0) =~= seq![t]); }
    else if !is_kw(t, Keywords::SRS) { }
    else if s.cur.len() == 0 { }
    else {
        st_pre(seq![t], seq![s.cur[0]], bump(s), s);
    }
}
pub proof fn lemma_slots_y(id: Identifier, acc: Seq<VariableAccessSlot>, s: St)
    ensures st(r_var(p_slots(id, acc, s).r), p_slots(id, acc, s).s, pre(t_var(VarS { id, slots: acc }), s)),
    decreases s.cur.len()
{
    let x = t_var(VarS { id, slots: acc });
    st_self(s);
    if s.cur.len() == 0 || s.cur[0].token_type != TokenType::BukkitSlotAccess { st_pre(x, Seq::empty(), s, s); assert(x + Seq::empty() =~= x); }
    else if s.cur.len() == 1 { st_bump(s); st_pre(x, seq![s.cur[0]], bump(s), s); }
    else {
        let s1 = bump(s);
        let i = p_ident(s.cur[1], bump(s1));
        lemma_ident_y(s.cur[1], bump(s1));
        st_bump(s);
        st_bump(s1);
        assert(pre(seq![s.cur[1]], bump(s1)) == s1);
        st_seq(seq![s.cur[0]], s1, s, r_ident(i.r), i.s);
        match i.r {
            Err(e) => { st_seq(Seq::empty(), s1, s, y_err(e), i.s); assert(Seq::empty() + y_err(e) =~= y_err(e)); st_pre(x, y_err(e), i.s, s); }
            Ok(n) => {
                let slot = VariableAccessSlot { slot_access_token: s.cur[0], identifier: n };
                let acc2 = acc.push(slot);
                lemma_slots_y(id, acc2, i.s);
                lemma_t_slots_push(acc, slot, 0);
                st_pre(x, t_slot(slot), i.s, s);
                assert(t_var(VarS { id, slots: acc2 }) =~= x + t_slot(slot));
                st_pre_trans(x + t_slot(slot), i.s, pre(x, s), r_var(p_slots(id, acc2, i.s).r), p_slots(id, acc2, i.s).s);
            }
        }
    }
}
pub proof fn lemma_var_y(t: Token, s: St)
    ensures st(r_var(p_var(t, s).r), p_var(t, s).s, pre(seq![t], s)),
{
    let i = p_ident(t, s);
    lemma_ident_y(t, s);
    match i.r {
        Err(e) => {}
        Ok(x) => {
            lemma_slots_y(x, Seq::empty(), i.s);
            assert(t_var(VarS { id: x, slots: Seq::empty() }) =~= t_ident(x));
            st_pre_trans(t_ident(x), i.s, pre(seq![t], s), r_var(p_var(t, s).r), p_var(t, s).s);
        }
    }
}
/// the next token begins the part that `q` parsed
pub proof fn st_head(s: St, y: Seq<Token>, q: St)
    requires s.cur.len() > 0, st(y, q, pre(seq![s.cur[0]], bump(s))),
    ensures st(y, q, s),
{ st_bump(s); }
pub proof fn lemma_expr_y(t: Token, s: St)
    ensures st(r_expr(p_expr(t, s).r), p_expr(t, s).s, pre(seq![t], s)),
    decreases s.cur.len(), 1int
{
    st_self(s);
    st_pre(seq![t], Seq::empty(), s, s);
    if starts_var(t) { lemma_var_y(t, s); }
    else if is_literal(t) { }
    else if is_kw(t, Keywords::NOT) { lemma_un_y(UnaryOpt::Not(t), s); }
    else {
        match bin_op(t) {
            Some(op) => { lemma_bin_y(op, s); }
            None => match nary_op(t) { Some(op) => { lemma_nary_y(op, Seq::empty(), s); assert(seq![t] + (t_ops(Seq::empty(), 0)) =~= seq![t]); } None => { } }
        }
    }
}
pub proof fn lemma_un_y(op: UnaryOpt, s: St)
    ensures st(r_expr(p_un(op, s).r), p_un(op, s).s, pre(seq![un_tok(op)], s)),
    decreases s.cur.len(), 0int
{
    let o = seq![un_tok(op)];
    st_self(s);
    if s.cur.len() == 0 { st_pre(o, Seq::empty(), s, s); }
    else {
        let x = p_expr(s.cur[0], bump(s));
        lemma_expr_y(s.cur[0], bump(s));
        st_head(s, r_expr(x.r), x.s);
        st_pre(o, r_expr(x.r), x.s, s);
    }
}
pub proof fn lemma_bin_y(op: BinaryOpt, s: St)
    ensures st(r_expr(p_bin(op, s).r), p_bin(op, s).s, pre(seq![bin_tok(op)], s)),
    decreases s.cur.len(), 0int
{
    let o = seq![bin_tok(op)];
    st_self(s);
    if s.cur.len() == 0 { st_pre(o, Seq::empty(), s, s); }
    else {
        let l = p_expr(s.cur[0], bump(s));
        lemma_expr_within(s.cur[0], bump(s));
        lemma_expr_y(s.cur[0], bump(s));
        st_head(s, r_expr(l.r), l.s);
        match l.r {
            Err(e) => { st_pre(o, y_err(e), l.s, s); }
            Ok(le) => {
                let an = opt_seq(opt_kw(l.s, Keywords::AN));
                let s2 = skip_kw(l.s, Keywords::AN);
                st_kw(l.s, Keywords::AN);
                st_seq(t_expr(le), l.s, s, an, s2);
                if s2.cur.len() == 0 { st_pre(o, t_expr(le) + an, s2, s); }
                else {
                    let r = p_expr(s2.cur[0], bump(s2));
                    lemma_expr_y(s2.cur[0], bump(s2));
                    st_head(s2, r_expr(r.r), r.s);
                    st_seq(t_expr(le) + an, s2, s, r_expr(r.r), r.s);
                    let y = t_expr(le) + an + r_expr(r.r);
                    match r.r {
                        Err(e) => { sub_add(t_expr(le) + an, y_err(e)); st_weak(y_err(e), y, r.s, s); st_pre(o, y_err(e), r.s, s); }
                        Ok(re) => { st_pre(o, y, r.s, s); assert(o + y =~= t_expr(p_bin(op, s).r->Ok_0)); }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_nary_y(op: NaryOpt, acc: Seq<OperandS>, s: St)
    ensures st(r_expr(p_nary(op, acc, s).r), p_nary(op, acc, s).s, pre(seq![nary_tok(op)] + t_ops(acc, 0), s)),
    decreases s.cur.len(), 0int
{
    let o = seq![nary_tok(op)] + t_ops(acc, 0);
    st_self(s);
    st_bump(s);
    if s.cur.len() == 0 || is_kw(s.cur[0], Keywords::MKAY) {
        st_pre(o, opt_seq(head(s)), bump(s), s);
        assert(o + opt_seq(head(s)) =~= t_expr(p_nary(op, acc, s).r->Ok_0));
    }
    else {
        let x = p_expr(s.cur[0], bump(s));
        lemma_expr_within(s.cur[0], bump(s));
        lemma_expr_y(s.cur[0], bump(s));
        st_head(s, r_expr(x.r), x.s);
        match x.r {
            Err(e) => { st_pre(o, y_err(e), x.s, s); }
            Ok(e) => {
                let an = opt_kw(x.s, Keywords::AN);
                let s2 = skip_kw(x.s, Keywords::AN);
                let p = OperandS { e, an };
                st_kw(x.s, Keywords::AN);
                st_seq(t_expr(e), x.s, s, opt_seq(an), s2);
                st_pre(o, t_op(p), s2, s);
                let acc2 = acc.push(p);
                lemma_t_ops_push(acc, p, 0);
                assert(seq![nary_tok(op)] + t_ops(acc2, 0) =~= o + t_op(p));
                lemma_nary_y(op, acc2, s2);
                st_pre_trans(o + t_op(p), s2, pre(o, s), r_expr(p_nary(op, acc2, s2).r), p_nary(op, acc2, s2).s);
            }
        }
    }
}

// ---- statements
/// a variable, an expression at the start of `s`
pub proof fn st_expr(s: St)
    requires s.cur.len() > 0,
    ensures
        st(r_expr(p_expr(s.cur[0], bump(s)).r), p_expr(s.cur[0], bump(s)).s, s),
        st(r_var(p_var(s.cur[0], bump(s)).r), p_var(s.cur[0], bump(s)).s, s),
        st(r_ident(p_ident(s.cur[0], bump(s)).r), p_ident(s.cur[0], bump(s)).s, s),
{
    lemma_expr_y(s.cur[0], bump(s));
    lemma_var_y(s.cur[0], bump(s));
    lemma_ident_y(s.cur[0], bump(s));
    st_bump(s);
}
pub proof fn lemma_gimmeh_y(t: Token, s: St)
    ensures st(r_node(p_gimmeh(t, s).r), p_gimmeh(t, s).s, pre(seq![t], s)),
{
    st_self(s);
    st_pre(seq![t], Seq::empty(), s, s);
    if s.cur.len() > 0 { let v = p_var(s.cur[0], bump(s)); st_expr(s); st_pre(seq![t], r_var(v.r), v.s, s); }
}
pub proof fn lemma_found_yr_y(t: Token, s: St)
    ensures st(r_node(p_found_yr(t, s).r), p_found_yr(t, s).s, pre(seq![t], s)),
{
    st_self(s);
    st_pre(seq![t], Seq::empty(), s, s);
    if s.cur.len() > 0 { let v = p_expr(s.cur[0], bump(s)); st_expr(s); st_pre(seq![t], r_expr(v.r), v.s, s); }
}
pub proof fn lemma_visible_y(t: Token, acc: Seq<ExprS>, s: St)
    ensures st(r_node(p_visible(t, acc, s).r), p_visible(t, acc, s).s, pre(seq![t] + y_exprlist(acc), s)),
    decreases s.cur.len()
{
    let o = seq![t] + y_exprlist(acc);
    st_self(s);
    st_bump(s);
    if s.cur.len() == 0 { st_pre(o, Seq::empty(), s, s); }
    else if s.cur[0].token_type == TokenType::ExclamationMark { st_pre(o, seq![s.cur[0]], bump(s), s); }
    else {
        let x = p_expr(s.cur[0], bump(s));
        lemma_expr_within(s.cur[0], bump(s));
        st_expr(s);
        st_pre(o, r_expr(x.r), x.s, s);
        match x.r {
            Err(e) => {}
            Ok(e) => {
                let acc2 = acc.push(e);
                lemma_y_exprs_push(acc, e);
                assert(seq![t] + y_exprlist(acc2) =~= o + t_expr(e));
                lemma_visible_y(t, acc2, x.s);
                st_pre_trans(o + t_expr(e), x.s, pre(o, s), r_node(p_visible(t, acc2, x.s).r), p_visible(t, acc2, x.s).s);
            }
        }
    }
}
pub proof fn lemma_i_has_a_y(t: Token, s: St)
    ensures st(r_node(p_i_has_a(t, s).r), p_i_has_a(t, s).s, pre(seq![t], s)),
{
    let o = seq![t];
    st_self(s);
    st_pre(o, Seq::empty(), s, s);
    st_bump(s);
    if s.cur.len() == 0 { }
    else if !starts_var(s.cur[0]) { st_pre(o, seq![s.cur[0]], bump(s), s); }
    else {
        let i = p_ident(s.cur[0], bump(s));
        st_expr(s);
        st_pre(o, r_ident(i.r), i.s, s);
        match i.r {
            Err(e) => {}
            Ok(id) => {
                if i.s.cur.len() == 0 { }
                else {
                    let itz = i.s.cur[0];
                    let s2 = bump(i.s);
                    let y = o + t_ident(id);
                    st_bump(i.s);
                    st_seq(y, i.s, pre(o, s), seq![itz], s2);
                    st_seq(y, i.s, pre(o, s), Seq::empty(), s2);
                    assert(y + Seq::empty() =~= y);
                    sub_add(y, seq![itz]);
                    st_weak(seq![itz], y + seq![itz], s2, pre(o, s));
                    if !is_kw(itz, Keywords::ITZ) { }
                    else if s2.cur.len() == 0 { }
                    else {
                        st_bump(s2);
                        st_seq(y, s2, pre(o, s), seq![s2.cur[0]], bump(s2));
                        match type_of(s2.cur[0]) {
                            Some(ty) => { }
                            None => {
                                let x = p_expr(s2.cur[0], bump(s2));
                                st_expr(s2);
                                st_seq(y, s2, pre(o, s), r_expr(x.r), x.s);
                                sub_add(y, r_expr(x.r));
                                st_weak(r_expr(x.r), y + r_expr(x.r), x.s, pre(o, s));
                            }
                        }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_call_end_y(t: Token, name: VarS, args: Seq<ExprS>, s: St)
    ensures st(r_node(p_call_end(t, name, args, s).r), p_call_end(t, name, args, s).s, pre(seq![t] + t_var(name) + y_exprlist(args), s)),
{
    let o = seq![t] + t_var(name) + y_exprlist(args);
    st_self(s);
    st_bump(s);
    st_pre(o, Seq::empty(), bump(s), s);
    if s.cur.len() == 0 {
        sub_one(o, 0);
        st_weak(seq![t], o, s, pre(o, s));
    }
    else { st_pre(o, seq![s.cur[0]], bump(s), s); }
}
pub proof fn lemma_args_y(t: Token, name: VarS, acc: Seq<ExprS>, s: St)
    ensures st(r_node(p_args(t, name, acc, s).r), p_args(t, name, acc, s).s, pre(seq![t] + t_var(name) + y_exprlist(acc), s)),
    decreases s.cur.len()
{
    let o = seq![t] + t_var(name) + y_exprlist(acc);
    st_bump(s);
    if !at_kw(s, Keywords::YR) { lemma_call_end_y(t, name, acc, s); }
    else if s.cur.len() == 1 { st_pre(o, seq![s.cur[0]], bump(s), s); }
    else {
        let s1 = bump(s);
        let x = p_expr(s.cur[1], bump(s1));
        lemma_expr_within(s.cur[1], bump(s1));
        st_expr(s1);
        st_seq(Seq::empty(), s1, s, r_expr(x.r), x.s);
        assert(Seq::empty() + r_expr(x.r) =~= r_expr(x.r));
        st_pre(o, r_expr(x.r), x.s, s);
        match x.r {
            Err(e) => {}
            Ok(e) => {
                let acc2 = acc.push(e);
                let o2 = o + t_expr(e);
                lemma_y_exprs_push(acc, e);
                assert(seq![t] + t_var(name) + y_exprlist(acc2) =~= o2);
                if !at_kw(x.s, Keywords::AN) {
                    lemma_call_end_y(t, name, acc2, x.s);
                    st_pre_trans(o2, x.s, pre(o, s), r_node(p_call_end(t, name, acc2, x.s).r), p_call_end(t, name, acc2, x.s).s);
                } else {
                    let s2 = bump(x.s);
                    st_bump(x.s);
                    st_seq(o2, x.s, pre(o, s), Seq::empty(), s2);
                    assert(o2 + Seq::empty() =~= o2);
                    lemma_args_y(t, name, acc2, s2);
                    st_pre_trans(o2, s2, pre(o, s), r_node(p_args(t, name, acc2, s2).r), p_args(t, name, acc2, s2).s);
                }
            }
        }
    }
}
pub proof fn lemma_i_iz_y(t: Token, s: St)
    ensures st(r_node(p_i_iz(t, s).r), p_i_iz(t, s).s, pre(seq![t], s)),
{
    let o = seq![t];
    st_self(s);
    st_pre(o, Seq::empty(), s, s);
    if s.cur.len() > 0 {
        let v = p_var(s.cur[0], bump(s));
        st_expr(s);
        st_pre(o, r_var(v.r), v.s, s);
        match v.r {
            Err(e) => {}
            Ok(x) => {
                lemma_args_y(t, x, Seq::empty(), v.s);
                assert(seq![t] + t_var(x) + y_exprlist(Seq::empty()) =~= o + t_var(x));
                let p = p_args(t, x, Seq::empty(), v.s);
                st_pre_trans(o + t_var(x), v.s, pre(o, s), r_node(p.r), p.s);
            }
        }
    }
}
pub proof fn lemma_last_name(v: VarS)
    ensures is_sub(seq![last_name(v)], t_var(v)),
{
    if v.slots.len() > 0 {
        let n = v.slots.len() as int - 1;
        lemma_t_slots_push(v.slots.drop_last(), v.slots.last(), 0);
        assert(v.slots.drop_last().push(v.slots.last()) =~= v.slots);
        let y = t_var(v);
        assert(y.last() == last_name(v));
        sub_one(y, y.len() - 1);
    } else {
        let y = t_var(v);
        assert(t_var(v) =~= t_ident(v.id));
        assert(y.last() == last_name(v));
        sub_one(y, y.len() - 1);
    }
}
pub proof fn lemma_assign_y(v: VarS, s: St)
    ensures st(r_node(p_assign(v, s).r), p_assign(v, s).s, pre(t_var(v), s)),
{
    let o = t_var(v);
    st_bump(s);
    st_pre(o, Seq::empty(), bump(s), s);
    if !at_kw(s, Keywords::R) { lemma_last_name(v); st_weak(seq![last_name(v)], o, bump(s), pre(o, s)); }
    else {
        let s1 = bump(s);
        st_pre(o, seq![s.cur[0]], s1, s);
        if s.cur.len() > 1 {
            let x = p_expr(s.cur[1], bump(s1));
            st_expr(s1);
            st_seq(o + seq![s.cur[0]], s1, pre(o, s), r_expr(x.r), x.s);
            sub_add(o + seq![s.cur[0]], r_expr(x.r));
            if x.r is Err { st_weak(r_expr(x.r), o + seq![s.cur[0]] + r_expr(x.r), x.s, pre(o, s)); }
        }
    }
}
pub proof fn lemma_slot_set_y(v: VarS, s: St)
    ensures st(r_node(p_slot_set(v, s).r), p_slot_set(v, s).s, pre(t_var(v), s)),
{
    let o = t_var(v);
    st_bump(s);
    st_pre(o, Seq::empty(), bump(s), s);
    if !at_kw(s, Keywords::HAS_A) { lemma_last_name(v); st_weak(seq![last_name(v)], o, bump(s), pre(o, s)); }
    else if s.cur.len() == 1 { st_pre(o, seq![s.cur[0]], bump(s), s); }
    else {
        let s1 = bump(s);
        let i = p_ident(s.cur[1], bump(s1));
        st_expr(s1);
        st_seq(Seq::empty(), s1, s, r_ident(i.r), i.s);
        assert(Seq::empty() + r_ident(i.r) =~= r_ident(i.r));
        st_pre(o, r_ident(i.r), i.s, s);
        match i.r {
            Err(e) => {}
            Ok(id) => {
                let y = o + t_ident(id);
                if i.s.cur.len() == 0 {
                    assert(y.last() == id.name);
                    sub_one(y, y.len() - 1);
                    st_weak(seq![id.name], y, i.s, pre(o, s));
                } else {
                    let itz = i.s.cur[0];
                    let s2 = bump(i.s);
                    st_bump(i.s);
                    st_seq(y, i.s, pre(o, s), seq![itz], s2);
                    st_seq(y, i.s, pre(o, s), Seq::empty(), s2);
                    assert(y + Seq::empty() =~= y);
                    sub_add(y, seq![itz]);
                    st_weak(seq![itz], y + seq![itz], s2, pre(o, s));
                    if !is_kw(itz, Keywords::ITZ) || s2.cur.len() == 0 { }
                    else {
                        let x = p_expr(s2.cur[0], bump(s2));
                        st_expr(s2);
                        st_seq(y, s2, pre(o, s), r_expr(x.r), x.s);
                        sub_add(y, r_expr(x.r));
                        st_weak(r_expr(x.r), y + r_expr(x.r), x.s, pre(o, s));
                    }
                }
            }
        }
    }
}
pub proof fn lemma_var_stmt_y(t: Token, s: St)
    ensures st(r_node(p_var_stmt(t, s).r), p_var_stmt(t, s).s, pre(seq![t], s)),
{
    let v = p_var(t, s);
    lemma_var_y(t, s);
    match v.r {
        Err(e) => {}
        Ok(x) => {
            if v.s.cur.len() == 0 { }
            else {
                let p = if at_kw(v.s, Keywords::HAS_A) { p_slot_set(x, v.s) } else { p_assign(x, v.s) };
                lemma_slot_set_y(x, v.s);
                lemma_assign_y(x, v.s);
                st_pre_trans(t_var(x), v.s, pre(seq![t], s), r_node(p.r), p.s);
            }
        }
    }
}
pub proof fn lemma_simple_y(t: Token, s: St)
    ensures st(r_node(p_simple(t, s).r), p_simple(t, s).s, pre(seq![t], s)),
{
    let o = seq![t];
    if starts_var(t) { lemma_var_stmt_y(t, s); }
    else if is_kw(t, Keywords::I_HAS_A) { lemma_i_has_a_y(t, s); }
    else if is_kw(t, Keywords::VISIBLE) { lemma_visible_y(t, Seq::empty(), s); assert(o + y_exprlist(Seq::empty()) =~= o); }
    else if is_kw(t, Keywords::GIMMEH) { lemma_gimmeh_y(t, s); }
    else if is_kw(t, Keywords::FOUND_YR) { lemma_found_yr_y(t, s); }
    else if is_kw(t, Keywords::HAI) { st_next(s); st_pre(o, s.cur, St { cur: Seq::empty(), rest: s.rest }, s); }
    else if is_kw(t, Keywords::KTHXBYE) { st_self(s); st_pre(o, Seq::empty(), s, s); }
    else if is_kw(t, Keywords::GTFO) { st_self(s); st_pre(o, Seq::empty(), s, s); }
    else if is_kw(t, Keywords::I_IZ) { lemma_i_iz_y(t, s); }
    else { lemma_expr_y(t, s); }
}

} // verus!
