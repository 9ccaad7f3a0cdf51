// C15/C16: the tokens of a parsed expression, variable access or assignment are the tokens it was
// parsed from, all of them, in order: what parsing takes from the statement and what it leaves, put
// together again, is the statement.
verus! {
pub proof fn lemma_tile_slots_push(a: Seq<VariableAccessSlot>, x: VariableAccessSlot, i: int)
    requires 0 <= i <= a.len(),
    ensures t_slots(a.push(x), i) == t_slots(a, i) + t_slot(x),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_tile_slots_push(a, x, i + 1);
        assert(t_slot(a[i]) + (t_slots(a, i + 1) + t_slot(x)) =~= t_slot(a[i]) + t_slots(a, i + 1) + t_slot(x));
    } else {
        assert(t_slots(a.push(x), i + 1) =~= Seq::empty());
        assert(t_slots(a.push(x), i) =~= t_slots(a, i) + t_slot(x));
    }
}
pub proof fn lemma_tile_ops_push(a: Seq<OperandS>, x: OperandS, i: int)
    requires 0 <= i <= a.len(),
    ensures t_ops(a.push(x), i) == t_ops(a, i) + t_op(x),
    decreases a.len() - i
{
    if i < a.len() {
        lemma_tile_ops_push(a, x, i + 1);
        assert(t_op(a[i]) + (t_ops(a, i + 1) + t_op(x)) =~= t_op(a[i]) + t_ops(a, i + 1) + t_op(x));
    } else {
        assert(t_ops(a.push(x), i + 1) =~= Seq::empty());
        assert(t_ops(a.push(x), i) =~= t_ops(a, i) + t_op(x));
    }
}
/// `y` was taken from the front of `before`, and `after` is left
pub open spec fn taken(y: Seq<Token>, after: St, before: Seq<Token>) -> bool { y + after.cur == before }

pub proof fn lemma_tile_bump(s: St)
    requires s.cur.len() > 0,
    ensures seq![s.cur[0]] + bump(s).cur == s.cur,
{ assert(seq![s.cur[0]] + bump(s).cur =~= s.cur); }
pub proof fn lemma_tile_kw(s: St, k: Keywords)
    ensures opt_seq(opt_kw(s, k)) + skip_kw(s, k).cur == s.cur,
{ assert(opt_seq(opt_kw(s, k)) + skip_kw(s, k).cur =~= s.cur); }

pub proof fn lemma_tile_ident(t: Token, s: St)
    ensures p_ident(t, s).r is Ok ==> taken(t_ident(p_ident(t, s).r->Ok_0), p_ident(t, s).s, seq![t] + s.cur),
{
    let i = p_ident(t, s);
    if i.r is Ok {
        if is_name(t) { assert(t_ident(i.r->Ok_0) =~= seq![t]); }
        else { lemma_tile_bump(s); assert(t_ident(i.r->Ok_0) + i.s.cur =~= seq![t] + s.cur); }
    }
}
pub proof fn lemma_tile_slots(id: Identifier, acc: Seq<VariableAccessSlot>, s: St)
    ensures p_slots(id, acc, s).r is Ok ==> taken(t_var(p_slots(id, acc, s).r->Ok_0), p_slots(id, acc, s).s, t_var(VarS { id, slots: acc }) + s.cur),
    decreases s.cur.len()
{
    if s.cur.len() == 0 || s.cur[0].token_type != TokenType::BukkitSlotAccess { }
    else if s.cur.len() == 1 { }
    else {
        let s1 = bump(s);
        let i = p_ident(s.cur[1], bump(s1));
        lemma_tile_ident(s.cur[1], bump(s1));
        lemma_tile_bump(s);
        lemma_tile_bump(s1);
        match i.r {
            Err(e) => {}
            Ok(n) => {
                let slot = VariableAccessSlot { slot_access_token: s.cur[0], identifier: n };
                lemma_tile_slots(id, acc.push(slot), i.s);
                lemma_tile_slots_push(acc, slot, 0);
                assert(t_var(VarS { id, slots: acc.push(slot) }) + i.s.cur =~= t_var(VarS { id, slots: acc }) + s.cur) by {
                    assert(t_slot(slot) + i.s.cur =~= seq![s.cur[0]] + (t_ident(n) + i.s.cur));
                    assert(t_var(VarS { id, slots: acc.push(slot) }) + i.s.cur =~= t_var(VarS { id, slots: acc }) + (t_slot(slot) + i.s.cur));
                }
            }
        }
    }
}
pub proof fn lemma_tile_var(t: Token, s: St)
    ensures p_var(t, s).r is Ok ==> taken(t_var(p_var(t, s).r->Ok_0), p_var(t, s).s, seq![t] + s.cur),
{
    let i = p_ident(t, s);
    lemma_tile_ident(t, s);
    match i.r {
        Err(e) => {}
        Ok(x) => {
            lemma_tile_slots(x, Seq::empty(), i.s);
            assert(t_var(VarS { id: x, slots: Seq::empty() }) =~= t_ident(x));
        }
    }
}
pub proof fn lemma_tile_expr(t: Token, s: St)
    ensures p_expr(t, s).r is Ok ==> taken(t_expr(p_expr(t, s).r->Ok_0), p_expr(t, s).s, seq![t] + s.cur),
    decreases s.cur.len(), 1int
{
    if starts_var(t) { lemma_tile_var(t, s); }
    else if is_literal(t) { }
    else if is_kw(t, Keywords::NOT) { lemma_tile_un(UnaryOpt::Not(t), s); }
    else {
        match bin_op(t) {
            Some(op) => { lemma_tile_bin(op, s); }
            None => match nary_op(t) { Some(op) => { lemma_tile_nary(op, Seq::empty(), s); assert(seq![t] + t_ops(Seq::empty(), 0) =~= seq![t]); } None => { } }
        }
    }
}
pub proof fn lemma_tile_un(op: UnaryOpt, s: St)
    ensures p_un(op, s).r is Ok ==> taken(t_expr(p_un(op, s).r->Ok_0), p_un(op, s).s, seq![un_tok(op)] + s.cur),
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 {
        let x = p_expr(s.cur[0], bump(s));
        lemma_tile_expr(s.cur[0], bump(s));
        lemma_tile_bump(s);
        if x.r is Ok { assert(seq![un_tok(op)] + t_expr(x.r->Ok_0) + x.s.cur =~= seq![un_tok(op)] + (t_expr(x.r->Ok_0) + x.s.cur)); }
    }
}
pub proof fn lemma_tile_bin(op: BinaryOpt, s: St)
    ensures p_bin(op, s).r is Ok ==> taken(t_expr(p_bin(op, s).r->Ok_0), p_bin(op, s).s, seq![bin_tok(op)] + s.cur),
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 && p_bin(op, s).r is Ok {
        let l = p_expr(s.cur[0], bump(s));
        lemma_expr_within(s.cur[0], bump(s));
        lemma_tile_expr(s.cur[0], bump(s));
        lemma_tile_bump(s);
        let le = l.r->Ok_0;
        let an = opt_seq(opt_kw(l.s, Keywords::AN));
        let s2 = skip_kw(l.s, Keywords::AN);
        lemma_tile_kw(l.s, Keywords::AN);
        let r = p_expr(s2.cur[0], bump(s2));
        lemma_tile_expr(s2.cur[0], bump(s2));
        lemma_tile_bump(s2);
        let re = r.r->Ok_0;
        let o = seq![bin_tok(op)];
        assert(t_expr(p_bin(op, s).r->Ok_0) == o + (t_expr(le) + (an + t_expr(re))));
        assert(o + (t_expr(le) + (an + t_expr(re))) + r.s.cur =~= o + (t_expr(le) + (an + (t_expr(re) + r.s.cur))));
    }
}
pub proof fn lemma_tile_nary(op: NaryOpt, acc: Seq<OperandS>, s: St)
    ensures p_nary(op, acc, s).r is Ok ==> taken(t_expr(p_nary(op, acc, s).r->Ok_0), p_nary(op, acc, s).s, seq![nary_tok(op)] + t_ops(acc, 0) + s.cur),
    decreases s.cur.len(), 0int
{
    let o = seq![nary_tok(op)] + t_ops(acc, 0);
    if s.cur.len() == 0 || is_kw(s.cur[0], Keywords::MKAY) {
        assert(seq![nary_tok(op)] + (t_ops(acc, 0) + opt_seq(head(s))) + bump(s).cur =~= o + s.cur);
    }
    else {
        let x = p_expr(s.cur[0], bump(s));
        lemma_expr_within(s.cur[0], bump(s));
        lemma_tile_expr(s.cur[0], bump(s));
        lemma_tile_bump(s);
        match x.r {
            Err(e) => {}
            Ok(e) => {
                let an = opt_kw(x.s, Keywords::AN);
                let s2 = skip_kw(x.s, Keywords::AN);
                let p = OperandS { e, an };
                lemma_tile_kw(x.s, Keywords::AN);
                lemma_tile_ops_push(acc, p, 0);
                lemma_tile_nary(op, acc.push(p), s2);
                assert(t_op(p) + s2.cur =~= t_expr(e) + (opt_seq(an) + s2.cur));
                assert(seq![nary_tok(op)] + t_ops(acc.push(p), 0) + s2.cur =~= o + (t_op(p) + s2.cur));
            }
        }
    }
}
/// C15: the tokens of a parsed construct are the ones that were taken to parse it
pub proof fn theorem_c15_expression(t: Token, s: St)
    ensures
        p_expr(t, s).r is Ok ==> t_expr(p_expr(t, s).r->Ok_0) + p_expr(t, s).s.cur == seq![t] + s.cur,
        p_var(t, s).r is Ok ==> t_var(p_var(t, s).r->Ok_0) + p_var(t, s).s.cur == seq![t] + s.cur,
{ lemma_tile_expr(t, s); lemma_tile_var(t, s); }
/// the same for an assignment, which starts with the variable access `v` parsed from `t`
pub proof fn theorem_c15_assignment(t: Token, s: St)
    requires p_var(t, s).r is Ok,
    ensures ({
        let v = p_var(t, s);
        let a = p_assign(v.r->Ok_0, v.s);
        a.r is Ok ==> a.r->Ok_0 is Assign && ({
            let (w, r, e) = (a.r->Ok_0->Assign_0, a.r->Ok_0->Assign_1, a.r->Ok_0->Assign_2);
            (t_var(w) + (seq![r] + t_expr(e))) + a.s.cur == seq![t] + s.cur
        })
    }),
{
    let v = p_var(t, s);
    let a = p_assign(v.r->Ok_0, v.s);
    lemma_tile_var(t, s);
    if a.r is Ok {
        let s1 = bump(v.s);
        let s2 = bump(s1);
        lemma_tile_bump(v.s);
        lemma_tile_bump(s1);
        let x = p_expr(v.s.cur[1], s2);
        lemma_tile_expr(v.s.cur[1], s2);
        let w = t_var(v.r->Ok_0);
        let r = seq![v.s.cur[0]];
        let e = t_expr(x.r->Ok_0);
        assert(w + (r + e) + x.s.cur =~= w + (r + (e + x.s.cur)));
    }
}
} // verus!
