//! Reference parser: written from the grammar in the property statements, over statements split in
//! advance. Gives the tree that `{:?}` of the real result has to show.
use crate::tree::*;
use lolcode_ast::lexer::{Keywords as K, Token, TokenType as TT};

pub struct Ref<'a> {
    pub toks: &'a [Token],
    /// statements: indices of their tokens (comments, separators and joining ellipses left out)
    pub stmts: Vec<Vec<usize>>,
    si: usize,
    pos: usize,
    depth: usize,
    /// top-level nodes: (statement index where its statement starts, node)
    pub top: Vec<(usize, T)>,
    /// expressions, assignments and accesses that make up a whole node: node number in traversal
    /// order is not needed; we record (tree, tokens) of every complete top-level statement
    pub whole: Vec<(T, Vec<usize>)>,
    /// statement index ranges at which no block is open
    pub boundaries: Vec<usize>,
}

type Res = Result<T, T>;

pub fn is_comment(t: &TT) -> bool {
    matches!(t, TT::CommentSingleLine(_) | TT::CommentMultiLine(_))
}

/// C09
pub fn split(toks: &[Token]) -> Vec<Vec<usize>> {
    let ix: Vec<usize> = (0..toks.len()).filter(|i| !is_comment(&toks[*i].token_type)).collect();
    let mut out = vec![];
    let mut i = 0;
    let mut line = if ix.is_empty() { 0 } else { toks[ix[0]].range.0.line };
    loop {
        let mut cur = vec![];
        while i < ix.len() {
            let t = &toks[ix[i]];
            if t.token_type == TT::Comma || t.range.0.line != line {
                break;
            }
            i += 1;
            if t.token_type == TT::Ellipsis {
                if i < ix.len() {
                    line = toks[ix[i]].range.0.line;
                }
            } else {
                cur.push(ix[i - 1]);
                line = t.range.1.line;
            }
        }
        out.push(cur);
        while i < ix.len() && matches!(toks[ix[i]].token_type, TT::Comma | TT::Ellipsis) {
            i += 1;
        }
        if i == ix.len() {
            return out;
        }
        line = toks[ix[i]].range.0.line;
    }
}

pub fn ident(name: usize, srs: Option<usize>) -> T {
    n("Identifier", vec![("name", T::Tok(name)), ("srs", opt(srs.map(T::Tok)))])
}

fn binary(k: &K) -> Option<&'static str> {
    Some(match k {
        K::BOTH_OF => "BothOf",
        K::EITHER_OF => "EitherOf",
        K::WON_OF => "WonOf",
        K::SUM_OF => "SumOf",
        K::DIFF_OF => "DiffOf",
        K::PRODUKT_OF => "ProduktOf",
        K::QUOSHUNT_OF => "QuoshuntOf",
        K::MOD_OF => "ModOf",
        K::BIGGR_OF => "BiggrOf",
        K::SMALLR_OF => "SmallrOf",
        K::BOTH_SAEM => "BothSaem",
        K::DIFFRINT => "Diffrint",
        _ => return None,
    })
}
fn nary(k: &K) -> Option<&'static str> {
    Some(match k {
        K::ALL_OF => "AllOf",
        K::ANY_OF => "AnyOf",
        K::SMOOSH => "Smoosh",
        _ => return None,
    })
}
fn type_name(k: &K) -> Option<&'static str> {
    Some(match k {
        K::NUMBR => "Numbr",
        K::NUMBAR => "Numbar",
        K::YARN => "Yarn",
        K::NOOB => "Noob",
        K::BUKKIT => "Bukkit",
        K::TROOF => "Troof",
        _ => return None,
    })
}

fn unexpected(t: usize) -> T {
    n1("UnexpectedToken", T::Tok(t))
}
fn missing(t: usize) -> T {
    n1("MissingToken", T::Tok(t))
}
fn err(group: &str, kind: &str, t: usize) -> T {
    n1(group, n1(kind, T::Tok(t)))
}

impl<'a> Ref<'a> {
    pub fn new(toks: &'a [Token]) -> Self {
        Ref { toks, stmts: split(toks), si: 0, pos: 0, depth: 0, top: vec![], whole: vec![], boundaries: vec![0] }
    }
    fn peek(&self) -> Option<usize> {
        self.stmts.get(self.si).and_then(|s| s.get(self.pos)).copied()
    }
    fn next(&mut self) -> Option<usize> {
        let r = self.peek();
        if r.is_some() {
            self.pos += 1;
        }
        r
    }
    fn kw(&self, t: usize) -> Option<&K> {
        match &self.toks[t].token_type {
            TT::Keyword(k) => Some(k),
            _ => None,
        }
    }
    fn at(&self, ks: &[K]) -> bool {
        self.peek().and_then(|t| self.kw(t)).map_or(false, |k| ks.contains(k))
    }
    fn next_kw(&mut self, k: K) -> Option<usize> {
        if self.at(&[k]) { self.next() } else { None }
    }
    fn rest(&self) -> Vec<usize> {
        self.stmts.get(self.si).map_or(vec![], |s| s[self.pos..].to_vec())
    }
    fn next_stmt(&mut self) {
        self.si += 1;
        self.pos = 0;
    }
    fn end_stmt(&mut self) -> Result<(), T> {
        let r = self.rest();
        if r.is_empty() {
            self.next_stmt();
            Ok(())
        } else {
            self.pos += r.len();
            Err(n1("TooManyTokens", T::List(r.into_iter().map(T::Tok).collect())))
        }
    }
    fn is_ident(&self, t: usize) -> bool {
        matches!(self.toks[t].token_type, TT::Identifier(_))
    }

    fn ident(&mut self, t: usize) -> Res {
        if self.is_ident(t) {
            return Ok(ident(t, None));
        }
        if self.kw(t) == Some(&K::SRS) {
            return match self.next() {
                None => Err(missing(t)),
                Some(u) if self.is_ident(u) => Ok(ident(u, Some(t))),
                Some(u) => Err(unexpected(u)),
            };
        }
        Err(unexpected(t))
    }
    /// (access, last name token)
    fn var(&mut self, t: usize) -> Result<(T, usize), T> {
        let first = self.ident(t)?;
        let mut last = first.clone();
        let mut acc = vec![];
        while let Some(z) = self.peek() {
            if self.toks[z].token_type != TT::BukkitSlotAccess {
                break;
            }
            self.next();
            let u = self.next().ok_or(missing(z))?;
            last = self.ident(u)?;
            acc.push(n("VariableAccessSlot", vec![("slot_access_token", T::Tok(z)), ("identifier", last.clone())]));
        }
        let name = match last.field("name") {
            Some(T::Tok(i)) => *i,
            _ => unreachable!(),
        };
        Ok((n("VariableAccess", vec![("identifier", first), ("accesses", T::List(acc))]), name))
    }
    fn expr(&mut self, t: usize) -> Res {
        match &self.toks[t].token_type {
            TT::Value(_) | TT::Keyword(K::NOOB) => Ok(n1("Value", n1("LiteralValue", T::Tok(t)))),
            TT::Identifier(_) | TT::Keyword(K::SRS) => Ok(n1("Value", n1("VariableAccess", self.var(t)?.0))),
            TT::Keyword(K::NOT) => {
                let u = self.next().ok_or(err("Expression", "MissingOperands", t))?;
                let e = self.expr(u)?;
                Ok(n1("UnaryOperation", n("UnaryOperation", vec![("operator", n1("Not", T::Tok(t))), ("expression", e)])))
            }
            TT::Keyword(k) if binary(k).is_some() => {
                let op = binary(k).unwrap();
                let u = self.next().ok_or(err("Expression", "MissingOperands", t))?;
                let l = self.expr(u)?;
                let an = self.next_kw(K::AN);
                let u = self.next().ok_or(err("Expression", "MissingOperands", t))?;
                let r = self.expr(u)?;
                Ok(n1(
                    "BinaryOperation",
                    n("BinaryOperation", vec![("operator", n1(op, T::Tok(t))), ("left", l), ("right", r), ("an_token", opt(an.map(T::Tok)))]),
                ))
            }
            TT::Keyword(k) if nary(k).is_some() => {
                let op = nary(k).unwrap();
                let mut v = vec![];
                while self.peek().is_some() && !self.at(&[K::MKAY]) {
                    let u = self.next().unwrap();
                    let e = self.expr(u)?;
                    let an = self.next_kw(K::AN);
                    v.push(n("NaryOperationOperand", vec![("operand", e), ("an_token", opt(an.map(T::Tok)))]));
                }
                let m = self.next();
                Ok(n1(
                    "NaryOperation",
                    n("NaryOperation", vec![("operator", n1(op, T::Tok(t))), ("expressions", T::List(v)), ("mkay_token", opt(m.map(T::Tok)))]),
                ))
            }
            _ => Err(unexpected(t)),
        }
    }

    fn statement(&mut self, t: usize) -> Res {
        let tok = T::Tok(t);
        let k = match &self.toks[t].token_type {
            TT::Identifier(_) | TT::Keyword(K::SRS) => {
                let (v, last) = self.var(t)?;
                if self.peek().is_none() {
                    return Ok(n1("Expression", n1("Value", n1("VariableAccess", v))));
                }
                if self.at(&[K::HAS_A]) {
                    let h = self.next().unwrap();
                    let u = self.next().ok_or(n1("VariableAssignment", n1("ExpectedValue", T::Tok(h))))?;
                    let slot = self.ident(u)?;
                    let name = slot.field("name").cloned().unwrap();
                    let itz = match self.next() {
                        None => return Err(n1("MissingToken", name)),
                        Some(x) if self.kw(x) == Some(&K::ITZ) => x,
                        Some(x) => return Err(unexpected(x)),
                    };
                    let u = self.next().ok_or(missing(itz))?;
                    let e = self.expr(u)?;
                    return Ok(n1("BukkitSetSlot", n("BukkitSetSlot", vec![("bukkit", v), ("slot_name", slot), ("value", e)])));
                }
                let r = self.next().unwrap();
                if self.kw(r) != Some(&K::R) {
                    return Err(err("VariableAssignment", "MissingR", last));
                }
                let u = self.next().ok_or(err("VariableAssignment", "ExpectedValue", r))?;
                let e = self.expr(u)?;
                return Ok(n1(
                    "VariableAssignment",
                    n("VariableAssignment", vec![("variable_access", v), ("expression", e), ("r_token", T::Tok(r))]),
                ));
            }
            TT::Keyword(k) => k.clone(),
            _ => return Ok(n1("Expression", self.expr(t)?)),
        };
        match k {
            K::HAI => {
                let v = self.rest();
                self.pos += v.len();
                Ok(n1("Hai", n("Hai", vec![("hai_token", tok), ("version", T::List(v.into_iter().map(T::Tok).collect()))])))
            }
            K::KTHXBYE => Ok(n1("KThxBye", n("KThxBye", vec![("k_thx_bye_token", tok)]))),
            K::GTFO => Ok(n1("Gtfo", n("Gtfo", vec![("gtfo_token", tok)]))),
            K::FOUND_YR => {
                let u = self.next().ok_or(missing(t))?;
                let e = self.expr(u)?;
                Ok(n1("FoundYr", n("FoundYr", vec![("found_yr_token", tok), ("expression", e)])))
            }
            K::GIMMEH => {
                let u = self.next().ok_or(missing(t))?;
                let v = self.var(u)?.0;
                Ok(n1("Gimmeh", n("Gimmeh", vec![("gimmeh_token", tok), ("variable_access", v)])))
            }
            K::VISIBLE => {
                let mut v = vec![];
                let mut bang = None;
                while let Some(u) = self.next() {
                    if self.toks[u].token_type == TT::ExclamationMark {
                        bang = Some(T::Tok(u));
                        break;
                    }
                    v.push(self.expr(u)?);
                }
                Ok(n1("Visible", n("Visible", vec![("visible_token", tok), ("expressions", T::List(v)), ("exclamation_mark", opt(bang))])))
            }
            K::I_HAS_A => {
                let u = self.next().ok_or(err("IHasA", "MissingIdentifier", t))?;
                if !self.is_ident(u) && self.kw(u) != Some(&K::SRS) {
                    return Err(err("IHasA", "InvalidIdentifier", u));
                }
                let id = self.ident(u)?;
                let init = match self.next() {
                    None => None,
                    Some(z) if self.kw(z) == Some(&K::ITZ) => {
                        let u = self.next().ok_or(err("IHasA", "ExpectedInitialValue", z))?;
                        Some(match self.kw(u).and_then(type_name) {
                            Some(ty) => n1("Type", n1(ty, T::Tok(u))),
                            None => n1("Expression", self.expr(u)?),
                        })
                    }
                    Some(z) => return Err(unexpected(z)),
                };
                Ok(n1("IHasA", n("IHasA", vec![("i_has_a_token", tok), ("identifier", id), ("initial_value", opt(init))])))
            }
            K::I_IZ => {
                let u = self.next().ok_or(err("IIz", "MissingName", t))?;
                let name = self.var(u)?.0;
                let mut args = vec![];
                while let Some(yr) = self.next_kw(K::YR) {
                    let u = self.next().ok_or(err("IIz", "MissingArgument", yr))?;
                    args.push(self.expr(u)?);
                    if self.next_kw(K::AN).is_none() {
                        break;
                    }
                }
                match self.next() {
                    None => return Err(err("IIz", "MissingMkay", t)),
                    Some(m) if self.kw(m) == Some(&K::MKAY) => {}
                    Some(m) => return Err(err("IIz", "MissingMkay", m)),
                }
                Ok(n1("IIz", n("IIz", vec![("i_iz_token", tok), ("name", name), ("arguments", T::List(args))])))
            }
            K::IM_IN_YR => self.im_in_yr(t),
            K::HOW_IZ_I => self.how_iz_i(t),
            K::O_RLY => self.o_rly(t),
            K::WTF => self.wtf(t),
            _ => Ok(n1("Expression", self.expr(t)?)),
        }
    }

    fn im_in_yr(&mut self, t: usize) -> Res {
        let label = self.next().ok_or(err("ImInYr", "MissingStartLabel", t))?;
        if !self.is_ident(label) {
            return Err(err("ImInYr", "InvalidStartLabel", label));
        }
        let mut op = None;
        if self.at(&[K::UPPIN, K::NERFIN]) {
            let o = self.next().unwrap();
            let yr = self.next().ok_or(err("ImInYr", "MissingOperand", o))?;
            if self.kw(yr) != Some(&K::YR) {
                return Err(err("ImInYr", "MissingYr", yr));
            }
            let u = self.next().ok_or(err("ImInYr", "MissingOperand", o))?;
            let v = self.var(u)?.0;
            let name = if self.kw(o) == Some(&K::UPPIN) { "UPPIN" } else { "NERFIN" };
            op = Some(n("LoopIterationOperation", vec![("operation", n1(name, T::Tok(o))), ("operand", v)]));
        }
        let mut cond = None;
        if self.at(&[K::TIL, K::WILE]) {
            let c = self.next().unwrap();
            let u = self.next().ok_or(err("ImInYr", "MissingConditionalExpression", c))?;
            let name = if self.kw(c) == Some(&K::TIL) { "TIL" } else { "WILE" };
            cond = Some(n1(name, self.expr(u)?));
        }
        self.end_stmt()?;
        let body = self.block(&[K::IM_OUTTA_YR]);
        let close = self.next().ok_or(err("ImInYr", "MissingImOuttaYr", t))?;
        let end = self.next().ok_or(err("ImInYr", "MissingEndLabel", close))?;
        if !self.is_ident(end) {
            return Err(err("ImInYr", "InvalidEndLabel", end));
        }
        Ok(n1(
            "ImInYr",
            n(
                "ImInYr",
                vec![
                    ("im_in_yr_token", T::Tok(t)),
                    ("label", T::Tok(label)),
                    ("on_iteration", opt(op)),
                    ("condition", opt(cond)),
                    ("code_block", body),
                    ("end_label", T::Tok(end)),
                ],
            ),
        ))
    }
    fn how_iz_i(&mut self, t: usize) -> Res {
        let u = self.next().ok_or(err("HowIsI", "MissingNameIdentifier", t))?;
        let name = self.ident(u)?;
        let mut args = vec![];
        while let Some(yr) = self.next_kw(K::YR) {
            let u = self.next().ok_or(missing(yr))?;
            args.push(self.ident(u)?);
            if self.next_kw(K::AN).is_none() {
                break;
            }
        }
        self.end_stmt()?;
        let body = self.block(&[K::IF_U_SAY_SO]);
        self.close(t, K::IF_U_SAY_SO)?;
        Ok(n1("HowIzI", n("HowIzI", vec![("how_iz_i_token", T::Tok(t)), ("name", name), ("arguments", T::List(args)), ("body", body)])))
    }
    fn close(&mut self, t: usize, k: K) -> Result<(), T> {
        match self.next() {
            None => Err(n1("MissingBlockClosingToken", T::Tok(t))),
            Some(c) if self.kw(c) == Some(&k) => Ok(()),
            Some(c) => Err(unexpected(c)),
        }
    }
    fn question(&mut self, t: usize) -> Result<(), T> {
        match self.next() {
            Some(q) if self.toks[q].token_type == TT::QuestionMark || self.toks[q].token_type == TT::Symbol("?".into()) => self.end_stmt(),
            _ => Err(err("ORly", "MissingQuestionMark", t)),
        }
    }
    fn o_rly(&mut self, t: usize) -> Res {
        const STOP: [K; 4] = [K::MEBBE, K::NO_WAI, K::YA_RLY, K::OIC];
        self.question(t)?;
        let mut yes = None;
        if let Some(y) = self.next_kw(K::YA_RLY) {
            self.end_stmt()?;
            yes = Some(n("YaRly", vec![("ya_rly_token", T::Tok(y)), ("block", self.block(&STOP))]));
        }
        let mut mebbes = vec![];
        while let Some(m) = self.next_kw(K::MEBBE) {
            let u = self.next().ok_or(err("ORly", "MissingMebbeExpression", m))?;
            let c = self.expr(u)?;
            self.end_stmt()?;
            mebbes.push(n("Mebbe", vec![("mebbe_token", T::Tok(m)), ("condition", c), ("block", self.block(&STOP))]));
        }
        let mut no = None;
        if let Some(y) = self.next_kw(K::NO_WAI) {
            self.end_stmt()?;
            no = Some(n("NoWai", vec![("no_wai_token", T::Tok(y)), ("block", self.block(&STOP))]));
        }
        self.close(t, K::OIC)?;
        Ok(n1(
            "ORly",
            n("ORly", vec![("o_rly_token", T::Tok(t)), ("if_true", opt(yes)), ("if_false", opt(no)), ("mebbes", T::List(mebbes))]),
        ))
    }
    fn wtf(&mut self, t: usize) -> Res {
        const STOP: [K; 3] = [K::OMG, K::OMGWTF, K::OIC];
        self.question(t)?;
        let mut omgs = vec![];
        while let Some(m) = self.next_kw(K::OMG) {
            let u = self.next().ok_or(missing(m))?;
            let c = self.expr(u)?;
            self.end_stmt()?;
            omgs.push(n("WtfOmg", vec![("omg_token", T::Tok(m)), ("expression", c), ("block", self.block(&STOP))]));
        }
        let mut other = None;
        if let Some(y) = self.next_kw(K::OMGWTF) {
            self.end_stmt()?;
            other = Some(n("WtfOmgWtf", vec![("omg_wtf_token", T::Tok(y)), ("block", self.block(&STOP))]));
        }
        self.close(t, K::OIC)?;
        Ok(n1("Wtf", n("Wtf", vec![("wtf_token", T::Tok(t)), ("omg", T::List(omgs)), ("omg_wtf", opt(other))])))
    }

    fn block(&mut self, stop: &[K]) -> T {
        self.depth += 1;
        let mut nodes = vec![];
        while !self.at(stop) {
            if self.peek().is_none() {
                // only before the first statement of the program, or at its end
                if self.si + 1 >= self.stmts.len() {
                    break;
                }
                self.next_stmt();
                continue;
            }
            let si = self.si;
            let first = self.next().unwrap();
            let node = match self.statement(first) {
                Ok(x) => x,
                Err(e) => n1("ASTError", e),
            };
            let one = self.si == si;
            let used = self.stmts.get(self.si).map_or(vec![], |s| s[..self.pos].to_vec());
            let extra = self.rest();
            if self.depth == 1 {
                self.top.push((si, node.clone()));
                if one && node.name() != "ASTError" {
                    self.whole.push((node.clone(), used));
                }
            }
            nodes.push(node);
            if !extra.is_empty() {
                let e = n1("ASTError", n1("TooManyTokens", T::List(extra.into_iter().map(T::Tok).collect())));
                if self.depth == 1 {
                    self.top.push((si, e.clone()));
                }
                nodes.push(e);
            }
            self.next_stmt();
            if self.depth == 1 {
                self.boundaries.push(self.si);
            }
        }
        self.depth -= 1;
        n1("ASTBlock", T::List(nodes))
    }
    pub fn program(&mut self) -> T {
        self.block(&[])
    }
}
