// The grammar of expressions (C10) and the errors of malformed ones (C13), as functions on the
// tokens of a statement.  Written from the property statements, not from the parser's code.
verus! {

/// an error node
pub enum ErrS { TooMany(Seq<Token>), One(ASTErrorType) }
pub open spec fn verr(e: ASTErrorType) -> ErrS {
    match e { ASTErrorType::TooManyTokens(v) => ErrS::TooMany(v@), e => ErrS::One(e) }
}
/// what parsing a construct gives: the construct or an error, and what is left to parse
pub struct PR<T> { pub r: Result<T, ErrS>, pub s: St }
pub open spec fn pok<T>(v: T, s: St) -> PR<T> { PR { r: Ok(v), s } }
pub open spec fn perr<T>(e: ASTErrorType, s: St) -> PR<T> { PR { r: Err(ErrS::One(e)), s } }

pub open spec fn is_kw(t: Token, k: Keywords) -> bool { t.token_type == TokenType::Keyword(k) }
pub open spec fn at_kw(s: St, k: Keywords) -> bool { s.cur.len() > 0 && is_kw(s.cur[0], k) }
pub open spec fn is_name(t: Token) -> bool { t.token_type is Identifier }
pub open spec fn is_literal(t: Token) -> bool { t.token_type is Value || is_kw(t, Keywords::NOOB) }
pub open spec fn starts_var(t: Token) -> bool { is_name(t) || is_kw(t, Keywords::SRS) }
/// takes an optional keyword
pub open spec fn opt_kw(s: St, k: Keywords) -> Option<Token> { if at_kw(s, k) { Some(s.cur[0]) } else { None } }
pub open spec fn skip_kw(s: St, k: Keywords) -> St { if at_kw(s, k) { bump(s) } else { s } }

/// identifier: NAME | SRS NAME
pub open spec fn p_ident(t: Token, s: St) -> PR<Identifier> {
    if is_name(t) { pok(Identifier { name: t, srs: None }, s) }
    else if !is_kw(t, Keywords::SRS) { perr(ASTErrorType::UnexpectedToken(t), s) }
    else if s.cur.len() == 0 { perr(ASTErrorType::MissingToken(t), s) }
    else if is_name(s.cur[0]) { pok(Identifier { name: s.cur[0], srs: Some(t) }, bump(s)) }
    else { perr(ASTErrorType::UnexpectedToken(s.cur[0]), bump(s)) }
}
/// variable access: identifier { 'Z identifier }
pub open spec fn p_slots(id: Identifier, acc: Seq<VariableAccessSlot>, s: St) -> PR<VarS>
    decreases s.cur.len()
{
    if s.cur.len() == 0 || s.cur[0].token_type != TokenType::BukkitSlotAccess { pok(VarS { id, slots: acc }, s) }
    else if s.cur.len() == 1 { perr(ASTErrorType::MissingToken(s.cur[0]), bump(s)) }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r {
            Err(e) => PR { r: Err(e), s: i.s },
            Ok(x) => if i.s.cur.len() >= s.cur.len() { arbitrary() }
                else { p_slots(id, acc.push(VariableAccessSlot { slot_access_token: s.cur[0], identifier: x }), i.s) }
        }
    }
}
pub open spec fn p_var(t: Token, s: St) -> PR<VarS> {
    let i = p_ident(t, s);
    match i.r { Err(e) => PR { r: Err(e), s: i.s }, Ok(x) => p_slots(x, Seq::empty(), i.s) }
}
pub open spec fn bin_op(t: Token) -> Option<BinaryOpt> {
    match t.token_type {
        TokenType::Keyword(k) => match k {
            Keywords::BOTH_OF => Some(BinaryOpt::BothOf(t)),
            Keywords::EITHER_OF => Some(BinaryOpt::EitherOf(t)),
            Keywords::WON_OF => Some(BinaryOpt::WonOf(t)),
            Keywords::SUM_OF => Some(BinaryOpt::SumOf(t)),
            Keywords::DIFF_OF => Some(BinaryOpt::DiffOf(t)),
            Keywords::PRODUKT_OF => Some(BinaryOpt::ProduktOf(t)),
            Keywords::QUOSHUNT_OF => Some(BinaryOpt::QuoshuntOf(t)),
            Keywords::MOD_OF => Some(BinaryOpt::ModOf(t)),
            Keywords::BIGGR_OF => Some(BinaryOpt::BiggrOf(t)),
            Keywords::SMALLR_OF => Some(BinaryOpt::SmallrOf(t)),
            Keywords::BOTH_SAEM => Some(BinaryOpt::BothSaem(t)),
            Keywords::DIFFRINT => Some(BinaryOpt::Diffrint(t)),
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn nary_op(t: Token) -> Option<NaryOpt> {
    match t.token_type {
        TokenType::Keyword(k) => match k {
            Keywords::ALL_OF => Some(NaryOpt::AllOf(t)),
            Keywords::ANY_OF => Some(NaryOpt::AnyOf(t)),
            Keywords::SMOOSH => Some(NaryOpt::Smoosh(t)),
            _ => None,
        },
        _ => None,
    }
}
pub open spec fn missing_operands(t: Token) -> ASTErrorType { ASTErrorType::Expression(ExpressionError::MissingOperands(t)) }

/// expression, first token already taken
pub open spec fn p_expr(t: Token, s: St) -> PR<ExprS>
    decreases s.cur.len(), 1int
{
    if starts_var(t) {
        let v = p_var(t, s);
        match v.r { Ok(x) => pok(ExprS::Var(x), v.s), Err(e) => PR { r: Err(e), s: v.s } }
    }
    else if is_literal(t) { pok(ExprS::Lit(t), s) }
    else if is_kw(t, Keywords::NOT) { p_un(UnaryOpt::Not(t), s) }
    else {
        match bin_op(t) {
            Some(op) => p_bin(op, s),
            None => match nary_op(t) {
                Some(op) => p_nary(op, Seq::empty(), s),
                None => perr(ASTErrorType::UnexpectedToken(t), s),
            }
        }
    }
}
pub open spec fn p_un(op: UnaryOpt, s: St) -> PR<ExprS>
    decreases s.cur.len(), 0int
{
    if s.cur.len() == 0 { perr(missing_operands(un_tok(op)), s) }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r { Ok(e) => pok(ExprS::Un(op, Box::new(e)), x.s), Err(e) => PR { r: Err(e), s: x.s } }
    }
}
pub open spec fn p_bin(op: BinaryOpt, s: St) -> PR<ExprS>
    decreases s.cur.len(), 0int
{
    if s.cur.len() == 0 { perr(missing_operands(bin_tok(op)), s) }
    else {
        let l = p_expr(s.cur[0], bump(s));
        match l.r {
            Err(e) => PR { r: Err(e), s: l.s },
            Ok(le) => {
                let an = opt_kw(l.s, Keywords::AN);
                let s2 = skip_kw(l.s, Keywords::AN);
                if s2.cur.len() == 0 { perr(missing_operands(bin_tok(op)), s2) }
                else if bump(s2).cur.len() >= s.cur.len() { arbitrary() }
                else {
                    let r = p_expr(s2.cur[0], bump(s2));
                    match r.r {
                        Err(e) => PR { r: Err(e), s: r.s },
                        Ok(re) => pok(ExprS::Bin(op, Box::new(le), an, Box::new(re)), r.s),
                    }
                }
            }
        }
    }
}
pub open spec fn p_nary(op: NaryOpt, acc: Seq<OperandS>, s: St) -> PR<ExprS>
    decreases s.cur.len(), 0int
{
    if s.cur.len() == 0 || is_kw(s.cur[0], Keywords::MKAY) { pok(ExprS::Nary(op, acc, head(s)), bump(s)) }
    else {
        let x = p_expr(s.cur[0], bump(s));
        match x.r {
            Err(e) => PR { r: Err(e), s: x.s },
            Ok(e) => {
                let an = opt_kw(x.s, Keywords::AN);
                let s2 = skip_kw(x.s, Keywords::AN);
                if s2.cur.len() >= s.cur.len() { arbitrary() } else { p_nary(op, acc.push(OperandS { e, an }), s2) }
            }
        }
    }
}

/// nothing here moves on to another statement, and no token comes back
pub open spec fn within(a: St, s: St) -> bool { a.rest == s.rest && a.cur.len() <= s.cur.len() }
pub broadcast proof fn lemma_ident_within(t: Token, s: St)
    ensures within(#[trigger] p_ident(t, s).s, s)
{ }
pub proof fn lemma_slots_within(id: Identifier, acc: Seq<VariableAccessSlot>, s: St)
    ensures within(p_slots(id, acc, s).s, s)
    decreases s.cur.len()
{
    if s.cur.len() == 0 || s.cur[0].token_type != TokenType::BukkitSlotAccess { }
    else if s.cur.len() == 1 { }
    else {
        let i = p_ident(s.cur[1], bump(bump(s)));
        match i.r { Err(e) => {}, Ok(x) => { lemma_slots_within(id, acc.push(VariableAccessSlot { slot_access_token: s.cur[0], identifier: x }), i.s); } }
    }
}
pub broadcast proof fn lemma_var_within(t: Token, s: St)
    ensures within(#[trigger] p_var(t, s).s, s)
{
    let i = p_ident(t, s);
    match i.r { Err(e) => {}, Ok(x) => { lemma_slots_within(x, Seq::empty(), i.s); } }
}
pub broadcast proof fn lemma_expr_within(t: Token, s: St)
    ensures within(#[trigger] p_expr(t, s).s, s)
    decreases s.cur.len(), 1int
{
    if starts_var(t) { lemma_var_within(t, s); }
    else if is_literal(t) { }
    else if is_kw(t, Keywords::NOT) { lemma_un_within(UnaryOpt::Not(t), s); }
    else {
        match bin_op(t) {
            Some(op) => { lemma_bin_within(op, s); }
            None => match nary_op(t) { Some(op) => { lemma_nary_within(op, Seq::empty(), s); } None => { } }
        }
    }
}
pub proof fn lemma_un_within(op: UnaryOpt, s: St)
    ensures within(p_un(op, s).s, s)
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 { lemma_expr_within(s.cur[0], bump(s)); }
}
pub proof fn lemma_bin_within(op: BinaryOpt, s: St)
    ensures within(p_bin(op, s).s, s)
    decreases s.cur.len(), 0int
{
    if s.cur.len() > 0 {
        lemma_expr_within(s.cur[0], bump(s));
        let l = p_expr(s.cur[0], bump(s));
        match l.r {
            Err(e) => {}
            Ok(le) => {
                let s2 = skip_kw(l.s, Keywords::AN);
                if s2.cur.len() > 0 { lemma_expr_within(s2.cur[0], bump(s2)); }
            }
        }
    }
}
pub proof fn lemma_nary_within(op: NaryOpt, acc: Seq<OperandS>, s: St)
    ensures within(p_nary(op, acc, s).s, s)
    decreases s.cur.len(), 0int
{
    if s.cur.len() == 0 || is_kw(s.cur[0], Keywords::MKAY) { }
    else {
        lemma_expr_within(s.cur[0], bump(s));
        let x = p_expr(s.cur[0], bump(s));
        match x.r {
            Err(e) => {}
            Ok(e) => { lemma_nary_within(op, acc.push(OperandS { e, an: opt_kw(x.s, Keywords::AN) }), skip_kw(x.s, Keywords::AN)); }
        }
    }
}
pub broadcast group group_within { lemma_ident_within, lemma_var_within, lemma_expr_within }
pub broadcast proof fn lemma_vops_push(v: Vec<NaryOperationOperand>, w: Vec<NaryOperationOperand>, x: NaryOperationOperand)
    requires w@ == #[trigger] v@.push(x),
    ensures #[trigger] vops(w) == vops(v).push(vop(x)),
{ assert(vops(w) =~= vops(v).push(vop(x))); }
pub broadcast proof fn lemma_vops_empty(v: Vec<NaryOperationOperand>)
    requires v@.len() == 0,
    ensures #[trigger] vops(v) == Seq::<OperandS>::empty(),
{ assert(vops(v) =~= Seq::<OperandS>::empty()); }

pub open spec fn last_name(v: VarS) -> Token { if v.slots.len() > 0 { v.slots.last().identifier.name } else { v.id.name } }
pub open spec fn type_of(t: Token) -> Option<ASTType> {
    match t.token_type {
        TokenType::Keyword(k) => match k {
            Keywords::NUMBR => Some(ASTType::Numbr(t)),
            Keywords::NUMBAR => Some(ASTType::Numbar(t)),
            Keywords::YARN => Some(ASTType::Yarn(t)),
            Keywords::NOOB => Some(ASTType::Noob(t)),
            Keywords::BUKKIT => Some(ASTType::Bukkit(t)),
            Keywords::TROOF => Some(ASTType::Troof(t)),
            _ => None,
        },
        _ => None,
    }
}
} // verus!
