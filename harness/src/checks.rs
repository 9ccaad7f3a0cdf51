//! One oracle per property, each stated on observable results of the real code.
use crate::gen::Input;
use crate::refparse::{is_comment, Ref};
use crate::reflex::{self, Pos, KEYWORDS};
use crate::tree::*;
use lolcode_ast::lexer::{Position, Token, TokenError, TokenType as TT, TokenValue};
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
use lolcode_ast::parser::statements::Node;
use std::cmp::Ordering;

pub const LEX: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C20", "C21"];

pub fn check(id: &str, inp: &Input) -> Option<String> {
    match inp {
        Input::Text(s) => text_check(id, s),
        Input::Toks(t) => tok_check(id, t),
    }
}

fn p(x: &Position) -> Pos {
    Pos { line: x.line, column: x.column, bytes: x.bytes, chars: x.chars }
}
/// accurate positions of all character boundaries
fn table(text: &str) -> Vec<Option<Pos>> {
    let mut v = vec![None; text.len() + 1];
    let (mut line, mut last, mut chars) = (1, 0usize, 0);
    for (i, c) in text.char_indices() {
        v[i] = Some(Pos { line, column: 1 + (i - last) as i32, bytes: i as i32, chars });
        chars += 1;
        if c == '\n' {
            line += 1;
            last = i + 1;
        }
    }
    v[text.len()] = Some(Pos { line, column: 1 + (text.len() - last) as i32, bytes: text.len() as i32, chars });
    v
}
/// byte range of a token, if it lies on character boundaries of the text
fn span(t: &Token, text: &str) -> Option<(usize, usize)> {
    let (a, b) = (t.range.0.bytes, t.range.1.bytes);
    if a < 0 || b < a {
        return None;
    }
    let (a, b) = (a as usize, b as usize);
    if b <= text.len() && text.is_char_boundary(a) && text.is_char_boundary(b) { Some((a, b)) } else { None }
}
pub fn class(t: &TT) -> String {
    match t {
        TT::Identifier(_) => "identifier".into(),
        TT::Symbol(_) => "symbol".into(),
        TT::Keyword(k) => format!("keyword {:?}", k),
        TT::Value(TokenValue::Number(n)) => match n {
            lolcode_ast::lexer::NumberToken::Int(_) => "integer".into(),
            lolcode_ast::lexer::NumberToken::Float(_) => "float".into(),
        },
        TT::Value(TokenValue::String(_)) => "string".into(),
        TT::Value(TokenValue::Boolean(b)) => format!("boolean {}", b),
        TT::Value(TokenValue::NOOB) => "NOOB".into(),
        TT::CommentSingleLine(_) => "BTW".into(),
        TT::CommentMultiLine(_) => "OBTW".into(),
        other => format!("{:?}", other),
    }
}

fn text_check(id: &str, text: &str) -> Option<String> {
    let r = lolcode_ast::tokenize(text.to_string());
    if id == "C01" {
        return None;
    }
    if id == "C20" {
        let a = format!("{:?}", lolcode_ast::tokenize_and_parse(text.to_string()));
        let b = format!("{:?}", r.map(lolcode_ast::parse));
        return if a == b { None } else { Some("tokenize_and_parse differs from parse(tokenize(..))".into()) };
    }
    let tab = table(text);
    if id == "C06" {
        let want = reflex::lex(text);
        return match (&r, &want) {
            (Ok(_), Ok(_)) => None,
            (Ok(_), Err(i)) => Some(format!("OBTW at byte {} has no TLDR, but no error was reported", i)),
            (Err(e), Ok(_)) => Some(format!("error {:?} although every OBTW is closed", e)),
            (Err(TokenError::UnclosedMultilineComment(r)), Err(i)) => {
                if Some(p(&r.0)) != tab[*i] || Some(p(&r.1)) != tab[text.len()] {
                    Some(format!("error range {:?} .. {:?}, expected {:?} .. {:?}", p(&r.0), p(&r.1), tab[*i], tab[text.len()]))
                } else {
                    None
                }
            }
        };
    }
    if id == "C21" {
        return positions(text, &tab, &r);
    }
    if id == "C03" {
        if let Err(TokenError::UnclosedMultilineComment(r)) = &r {
            for q in [&r.0, &r.1] {
                if let Some(m) = accurate(q, &tab) {
                    return Some(format!("error range: {}", m));
                }
            }
        }
        if let Some(m) = addition(text, &tab) {
            return Some(m);
        }
    }
    if id == "C07" {
        for (i, (k, s)) in KEYWORDS.iter().enumerate() {
            if k.to_string_slice() != *s || *s != format!("{:?}", k).replace('_', " ") {
                return Some(format!("keyword {:?} is spelled {:?}", k, k.to_string_slice()));
            }
            if KEYWORDS[..i].iter().any(|x| x.1 == *s) {
                return Some(format!("spelling {:?} is not unique", s));
            }
        }
    }
    let toks = match r {
        Ok(t) => t,
        Err(_) => return None,
    };
    match id {
        "C02" => {
            let mut at = 0usize;
            for (i, t) in toks.iter().enumerate() {
                let (a, b) = match span(t, text) {
                    Some(x) => x,
                    None => return Some(format!("token {}: byte range {}..{} is not a place in the text", i, t.range.0.bytes, t.range.1.bytes)),
                };
                if a < at || b == a {
                    return Some(format!("token {}: byte range {}..{} overlaps the previous token or is empty", i, a, b));
                }
                if !text[at..a].chars().all(|c| c == ' ' || c == '\t' || c == '\n') {
                    return Some(format!("text {:?} before token {} belongs to no token", &text[at..a], i));
                }
                at = b;
            }
            if !text[at..].chars().all(|c| c == ' ' || c == '\t' || c == '\n') {
                return Some(format!("text {:?} at the end belongs to no token", &text[at..]));
            }
            None
        }
        "C03" => {
            for (i, t) in toks.iter().enumerate() {
                for q in [&t.range.0, &t.range.1] {
                    if let Some(m) = accurate(q, &tab) {
                        return Some(format!("token {}: {}", i, m));
                    }
                }
            }
            None
        }
        "C04" => {
            for (i, t) in toks.iter().enumerate() {
                let (a, b) = match span(t, text) {
                    Some(x) => x,
                    None => continue,
                };
                let s = &text[a..b];
                let bad = |w: &str| Some(format!("token {}: content {:?} does not match its text {:?} ({})", i, t.token_type, s, w));
                match &t.token_type {
                    TT::Identifier(x) | TT::Symbol(x) => {
                        if x != s {
                            return bad("identifier or symbol");
                        }
                    }
                    TT::Keyword(k) => {
                        if s != k.to_string_slice() || s != format!("{:?}", k).replace('_', " ") {
                            return bad("keyword");
                        }
                    }
                    TT::Value(TokenValue::Boolean(v)) => {
                        if s != if *v { "WIN" } else { "FAIL" } {
                            return bad("boolean");
                        }
                    }
                    TT::Value(TokenValue::NOOB) => {
                        if s != "NOOB" {
                            return bad("NOOB");
                        }
                    }
                    TT::Value(TokenValue::Number(n)) => {
                        let ok = match n {
                            lolcode_ast::lexer::NumberToken::Int(v) => !s.contains('.') && s.parse::<i32>() == Ok(*v),
                            lolcode_ast::lexer::NumberToken::Float(v) => s.contains('.') && s.parse::<f32>().map_or(false, |w| w.to_bits() == v.to_bits()),
                        };
                        if !ok {
                            return bad("number");
                        }
                    }
                    TT::Value(TokenValue::String(v)) => {
                        let ok = s.starts_with('"') && (s[1..] == *v && b == text.len() || s.len() >= 2 && s.ends_with('"') && s[1..s.len() - 1] == *v);
                        if !ok {
                            return bad("string");
                        }
                    }
                    TT::CommentSingleLine(v) => {
                        if s.strip_prefix("BTW") != Some(v) {
                            return bad("comment");
                        }
                    }
                    TT::CommentMultiLine(v) => {
                        if s.strip_prefix("OBTW").and_then(|x| x.strip_suffix("TLDR")) != Some(v) {
                            return bad("comment");
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        "C05" | "C07" => {
            // every place at which a token starts, or should have started
            let mut starts: Vec<(usize, &Token, usize)> = vec![];
            for t in &toks {
                if let Some((a, b)) = span(t, text) {
                    starts.push((a, t, b));
                }
            }
            for (i, (a, t, b)) in starts.iter().enumerate() {
                match reflex::token_at(&text[*a..]) {
                    Err(()) => return Some(format!("token {}: an unclosed comment starts here", i)),
                    Ok((k, len)) => {
                        if id == "C05" {
                            if class(&k) != class(&t.token_type) || a + len != *b {
                                return Some(format!("token {} at byte {}: {} of {} bytes, expected {} of {} bytes", i, a, class(&t.token_type), b - a, class(&k), len));
                            }
                        } else {
                            let word = |k: &TT| matches!(k, TT::Keyword(_) | TT::Value(TokenValue::Boolean(_)) | TT::Value(TokenValue::NOOB));
                            if (word(&k) || word(&t.token_type)) && (class(&k) != class(&t.token_type) || a + len != *b) {
                                return Some(format!("token {} at byte {}: {}, expected {}", i, a, class(&t.token_type), class(&k)));
                            }
                        }
                    }
                }
            }
            if id == "C05" {
                if let Ok(w) = reflex::lex(text) {
                    if w.len() != toks.len() {
                        return Some(format!("{} tokens, expected {}", toks.len(), w.len()));
                    }
                }
            }
            None
        }
        _ => None,
    }
}

fn accurate(q: &Position, tab: &[Option<Pos>]) -> Option<String> {
    let want = if q.bytes >= 0 && (q.bytes as usize) < tab.len() { tab[q.bytes as usize] } else { None };
    if want == Some(p(q)) { None } else { Some(format!("position {:?}, expected {:?}", p(q), want)) }
}
fn real(x: &Pos) -> Position {
    Position { line: x.line, column: x.column, bytes: x.bytes, chars: x.chars }
}
/// advancing a position over text
fn addition(text: &str, tab: &[Option<Pos>]) -> Option<String> {
    let at: Vec<usize> = (0..tab.len()).filter(|i| tab[*i].is_some()).collect();
    let step = 1 + at.len() / 12;
    for i in at.iter().step_by(step) {
        for j in at.iter().step_by(step).chain(at.last()) {
            if i <= j {
                let a = real(&tab[*i].unwrap());
                let mut b = a.clone();
                b += &text[*i..*j];
                let c = a + &text[*i..*j];
                if Some(p(&b)) != tab[*j] || Some(p(&c)) != tab[*j] {
                    return Some(format!("position {:?} plus {:?} is {:?} / {:?}", tab[*i], &text[*i..*j], p(&b), p(&c)));
                }
            }
        }
    }
    None
}
fn positions(text: &str, tab: &[Option<Pos>], r: &Result<Vec<Token>, TokenError>) -> Option<String> {
    let mut v: Vec<(usize, Position)> = vec![];
    // positions reported by the tokenizer, with the place they really denote
    match (r, reflex::lex(text)) {
        (Ok(t), Ok(w)) if t.len() == w.len() => {
            for (t, w) in t.iter().zip(w) {
                v.push((w.start, t.range.0.clone()));
                v.push((w.end, t.range.1.clone()));
            }
        }
        (Err(TokenError::UnclosedMultilineComment(r)), Err(i)) => {
            v.push((i, r.0.clone()));
            v.push((text.len(), r.1.clone()));
        }
        _ => {}
    }
    if v.len() > 40 {
        let s = v.len() / 20;
        let mut k = 0;
        v.retain(|_| {
            k += 1;
            k % s < 2
        });
    }
    for (i, q) in tab.iter().enumerate().step_by(1 + tab.len() / 20) {
        if let Some(q) = q {
            v.push((i, real(q)));
        }
    }
    let own: Vec<usize> = v.iter().map(|x| x.0).collect();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            if (a.1 == b.1) != (own[i] == own[j]) || (a.1 != b.1) == (own[i] == own[j]) {
                return Some(format!("{:?} == {:?} is {}", p(&a.1), p(&b.1), a.1 == b.1));
            }
            let o = own[i].cmp(&own[j]);
            let got = a.1.partial_cmp(&b.1);
            let ops = (a.1 < b.1) == (o == Ordering::Less) && (a.1 > b.1) == (o == Ordering::Greater) && (a.1 <= b.1) == (o != Ordering::Greater) && (a.1 >= b.1) == (o != Ordering::Less);
            if got != Some(o) || !ops {
                return Some(format!("comparison of {:?} and {:?} is {:?}", p(&a.1), p(&b.1), got));
            }
        }
    }
    // places too far into a text to make one here: A and B as a text of these lines, columns and bytes has them
    let mut z = text.bytes().fold(0x9e3779b97f4a7c15u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    let mut upto = |n: i64| {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        let mut m = (z >> 8) as i64 % n.max(1);
        // small and round distances as often as any
        match z % 5 {
            0 => m = m.min(3),
            1 => m = m.min((1i64 << (z >> 40) % 31) - 1),
            2 => m = m.min(1i64 << (z >> 40) % 31),
            _ => {}
        }
        m as i32
    };
    for _ in 0..4 {
        let most = i32::MAX as i64 - 2;
        let (dl, dc, db) = (upto(most / 2), upto(most / 4), upto(most / 4));
        let a = Position { line: 1 + dl, column: 1 + dc, bytes: dl + dc + db, chars: dl + dc + db };
        let room = most - a.bytes as i64;
        let b = if upto(100) % 2 == 0 {
            let d = upto(room);
            Position { line: a.line, column: a.column + d, bytes: a.bytes + d, chars: a.chars + d }
        } else {
            let dl = 1 + upto(room / 2);
            let dc = upto(room / 4);
            Position { line: a.line + dl, column: 1 + dc, bytes: a.bytes + dl + dc, chars: a.chars + dl + dc }
        };
        let same = a.bytes == b.bytes;
        let o = a.bytes.cmp(&b.bytes);
        let ops = (a < b) != same && !(a > b) && a <= b && (a >= b) == same && (b > a) != same && !(b < a);
        if (a == b) != same || (b == a) != same || a.partial_cmp(&b) != Some(o) || b.partial_cmp(&a) != Some(o.reverse()) || !ops {
            return Some(format!("comparison of {:?} and {:?} is {:?}", p(&a), p(&b), a.partial_cmp(&b)));
        }
    }
    use lolcode_ast::lexer::Range;
    for i in 0..v.len().min(14) {
        for j in 0..v.len().min(14) {
            let x = Range(v[0].1.clone(), v[i].1.clone());
            let y = Range(v[0].1.clone(), v[j].1.clone());
            let z = Range(v[i].1.clone(), v[0].1.clone());
            let w = Range(v[j].1.clone(), v[0].1.clone());
            let e = own[i] == own[j];
            if (x == y) != e || (z == w) != e || (x == z) != (own[0] == own[i]) {
                return Some(format!("range equality with ends {:?} and {:?}", p(&v[i].1), p(&v[j].1)));
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------

const ORDER: &[(&str, &[&str])] = &[
    ("BinaryOperation", &["operator", "left", "an_token", "right"]),
    ("UnaryOperation", &["operator", "expression"]),
    ("NaryOperation", &["operator", "expressions", "mkay_token"]),
    ("NaryOperationOperand", &["operand", "an_token"]),
    ("Identifier", &["srs", "name"]),
    ("VariableAccess", &["identifier", "accesses"]),
    ("VariableAccessSlot", &["slot_access_token", "identifier"]),
    ("VariableAssignment", &["variable_access", "r_token", "expression"]),
    ("BukkitSetSlot", &["bukkit", "slot_name", "value"]),
    ("ORly", &["o_rly_token", "if_true", "mebbes", "if_false"]),
    ("YaRly", &["ya_rly_token", "block"]),
    ("NoWai", &["no_wai_token", "block"]),
    ("Mebbe", &["mebbe_token", "condition", "block"]),
    ("Wtf", &["wtf_token", "omg", "omg_wtf"]),
    ("WtfOmg", &["omg_token", "expression", "block"]),
    ("WtfOmgWtf", &["omg_wtf_token", "block"]),
    ("ImInYr", &["im_in_yr_token", "label", "on_iteration", "condition", "code_block", "end_label"]),
    ("LoopIterationOperation", &["operation", "operand"]),
    ("HowIzI", &["how_iz_i_token", "name", "arguments", "body"]),
    ("IHasA", &["i_has_a_token", "identifier", "initial_value"]),
    ("IIz", &["i_iz_token", "name", "arguments"]),
    ("Visible", &["visible_token", "expressions", "exclamation_mark"]),
    ("Gimmeh", &["gimmeh_token", "variable_access"]),
    ("FoundYr", &["found_yr_token", "expression"]),
    ("Hai", &["hai_token", "version"]),
];
/// parts of a node in source order; None: the struct has parts this harness does not know
fn parts<'a>(t: &'a T) -> (Vec<&'a T>, bool) {
    match t {
        T::Tok(_) => (vec![], true),
        T::List(l) => (l.iter().collect(), true),
        T::N(s, f) => {
            if let Some((_, o)) = ORDER.iter().find(|x| x.0 == s) {
                if f.len() > 1 || f.first().map_or(false, |x| x.0 != "0") {
                    if f.len() == o.len() && f.iter().all(|x| o.contains(&x.0.as_str())) {
                        return (o.iter().map(|k| t.field(k).unwrap()).collect(), true);
                    }
                    return (f.iter().map(|x| &x.1).collect(), false);
                }
            }
            (f.iter().map(|x| &x.1).collect(), true)
        }
    }
}
fn flat(t: &T, out: &mut Vec<usize>) -> bool {
    if let T::Tok(i) = t {
        out.push(*i);
        return true;
    }
    let (v, ok) = parts(t);
    let at = out.len();
    let mut all = true;
    for x in v {
        all &= flat(x, out);
    }
    if !ok {
        out[at..].sort();
    }
    all
}
/// nodes of all blocks, in source order (a node before the nodes inside it)
fn nodes<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    if t.name() == "ASTBlock" {
        if let Some(T::List(l)) = t.arg() {
            for x in l {
                out.push(x);
                nodes(x, out);
            }
            return;
        }
    }
    for x in parts(t).0 {
        nodes(x, out);
    }
}
const EXPR: &[&str] = &["BinaryOperation", "UnaryOperation", "NaryOperation", "Value"];
fn exprs<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    if EXPR.contains(&t.name()) {
        out.push(t);
        return;
    }
    for x in parts(t).0 {
        exprs(x, out);
    }
}
const BLOCKS: &[&str] = &["ImInYr", "HowIzI", "ORly", "Wtf"];
/// simple statements reduced to kind and first token
fn skeleton(t: &T) -> T {
    if t.name() == "ASTBlock" {
        if let Some(T::List(l)) = t.arg() {
            let v = l
                .iter()
                .map(|x| {
                    if BLOCKS.contains(&x.name()) {
                        skeleton(x)
                    } else {
                        let mut v = vec![];
                        flat(x, &mut v);
                        v.sort();
                        n1(x.name(), v.first().map_or(none(), |i| T::Tok(*i)))
                    }
                })
                .collect();
            return n1("ASTBlock", T::List(v));
        }
    }
    match t {
        T::Tok(i) => T::Tok(*i),
        T::List(l) => T::List(l.iter().map(skeleton).collect()),
        T::N(s, f) => T::N(s.clone(), f.iter().map(|x| (x.0.clone(), skeleton(&x.1))).collect()),
    }
}
/// the tokens of a node, without those of the blocks inside it
fn own_tokens(t: &T, out: &mut Vec<usize>) {
    if t.name() == "ASTBlock" {
        return;
    }
    if let T::Tok(i) = t {
        out.push(*i);
    }
    for x in parts(t).0 {
        own_tokens(x, out);
    }
}

fn lists(what: &str, a: &[&T], b: &[&T]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if same(x, y) => {}
            (x, y) => {
                return Some(format!("{} number {}: got {}, expected {}", what, i, x.map_or("nothing".into(), |t| t.show()), y.map_or("nothing".into(), |t| t.show())));
            }
        }
    }
    None
}

fn tok_check(id: &str, toks: &[Token]) -> Option<String> {
    let block = lolcode_ast::parse(toks.to_vec());
    if id == "C08" {
        return None;
    }
    let text = format!("{:?}", block);
    if id == "C17" {
        let less: Vec<Token> = toks.iter().filter(|t| !is_comment(&t.token_type)).cloned().collect();
        let other = lolcode_ast::parse(less);
        return if format!("{:?}", other) == text { None } else { Some("the result changes when comments are removed".into()) };
    }
    let index = token_index(toks);
    let got = match parse_debug(&text, &index) {
        Some(t) => t,
        None => return None,
    };
    if id == "C14" {
        let mut all = vec![];
        nodes(&got, &mut all);
        let want: Vec<&T> = all.iter().filter(|t| t.name() == "ASTError").filter_map(|t| t.arg()).collect();
        let mut it = block.iter_errors();
        let mut have = vec![];
        while let Some(e) = it.next() {
            have.push(parse_debug(&format!("{:?}", e), &index).unwrap_or(none()));
            if have.len() > want.len() + 3 {
                break;
            }
        }
        for _ in 0..3 {
            if it.next().is_some() {
                return Some("iteration goes on after its end".into());
            }
        }
        return lists("error", &have.iter().collect::<Vec<_>>(), &want);
    }
    if id == "C19" {
        let mut v = vec![];
        flat(&got, &mut v);
        for i in 0..v.len() {
            if v[i] == usize::MAX {
                return Some("the AST contains a token that is not in the input".into());
            }
            if i > 0 && v[i] <= v[i - 1] {
                return Some(format!("token t{} appears after t{} in the AST: {}", v[i], v[i - 1], got.show()));
            }
        }
        return None;
    }
    let mut r = Ref::new(toks);
    let want = r.program();
    match id {
        "C09" => {
            let f = |t: &T| {
                let mut v = vec![];
                nodes(t, &mut v);
                v.iter()
                    .map(|x| {
                        let mut o = vec![];
                        own_tokens(x, &mut o);
                        o.sort();
                        o
                    })
                    .collect::<Vec<_>>()
            };
            let (a, b) = (f(&got), f(&want));
            if a != b {
                return Some(format!("statements hold the tokens {:?}, expected {:?}", a, b));
            }
            None
        }
        "C10" => {
            let (mut a, mut b) = (vec![], vec![]);
            exprs(&got, &mut a);
            exprs(&want, &mut b);
            if let Some(m) = lists("expression", &a, &b) {
                return Some(m);
            }
            let too = |t: &T| {
                let mut v = vec![];
                nodes(t, &mut v);
                v.into_iter().filter(|x| x.arg().map_or(false, |y| y.name() == "TooManyTokens")).cloned().collect::<Vec<_>>()
            };
            let (a, b) = (too(&got), too(&want));
            lists("rest of a statement", &a.iter().collect::<Vec<_>>(), &b.iter().collect::<Vec<_>>())
        }
        "C11" => {
            let f = |t: &T| {
                let mut v = vec![];
                nodes(t, &mut v);
                v.into_iter().filter(|x| x.name() != "ASTError" && !BLOCKS.contains(&x.name())).cloned().collect::<Vec<_>>()
            };
            let (a, b) = (f(&got), f(&want));
            lists("simple statement", &a.iter().collect::<Vec<_>>(), &b.iter().collect::<Vec<_>>())
        }
        "C12" => {
            let (a, b) = (skeleton(&got), skeleton(&want));
            if same(&a, &b) { None } else { Some(format!("block structure {}, expected {}", a.show(), b.show())) }
        }
        "C13" => {
            let f = |t: &T| {
                let mut v = vec![];
                nodes(t, &mut v);
                v.into_iter().enumerate().filter(|x| x.1.name() == "ASTError").map(|x| n("error", vec![("at", n(&x.0.to_string(), vec![])), ("what", x.1.clone())])).collect::<Vec<_>>()
            };
            let (a, b) = (f(&got), f(&want));
            lists("error", &a.iter().collect::<Vec<_>>(), &b.iter().collect::<Vec<_>>())
        }
        "C18" => {
            let b: Vec<usize> = r.boundaries.iter().copied().filter(|b| *b > 0 && *b < r.stmts.len()).collect();
            let step = 1 + b.len() / 6;
            for si in b.iter().step_by(step) {
                let at = match r.stmts[*si].first() {
                    Some(x) => *x,
                    None => continue,
                };
                let x = lolcode_ast::parse(toks[..at].to_vec());
                let y = lolcode_ast::parse(toks[at..].to_vec());
                let mut all: Vec<Node> = x.0.into_iter().collect();
                all.extend(y.0);
                let a: Vec<String> = all.iter().map(|n| format!("{:?}", n)).collect();
                let c: Vec<String> = block.0.iter().map(|n| format!("{:?}", n)).collect();
                if a != c {
                    return Some(format!("parsing the parts before and after t{} separately gives {} nodes, together {}: or different ones", at, a.len(), c.len()));
                }
            }
            None
        }
        "C15" | "C16" => {
            if block.0.len() != r.top.len() {
                return None;
            }
            let mut k = 0;
            for (j, (_, node)) in r.top.iter().enumerate() {
                let used = match r.whole.get(k) {
                    Some((w, u)) if w == node => u,
                    _ => continue,
                };
                k += 1;
                let want: Vec<&Token> = used.iter().map(|i| &toks[*i]).collect();
                if let Some(m) = walk(id, &block.0[j], &want) {
                    return Some(format!("node {} ({}): {}", j, node.show(), m));
                }
            }
            None
        }
        _ => None,
    }
}

fn one<'a>(mut it: impl Iterator<Item = &'a Token>, want: &[&Token]) -> Option<String> {
    for (i, w) in want.iter().enumerate() {
        match it.next() {
            Some(t) if std::ptr::eq(t, *w) || format!("{:?}", t) == format!("{:?}", w) && t.range.0.bytes == w.range.0.bytes && t.range.1.chars == w.range.1.chars => {}
            Some(t) => return Some(format!("token {} is {:?}, expected {:?}", i, t, w)),
            None => return Some(format!("only {} of {} tokens", i, want.len())),
        }
    }
    for _ in 0..3 {
        if let Some(t) = it.next() {
            return Some(format!("after all {} tokens still {:?}", want.len(), t));
        }
    }
    None
}
fn ends(r: (&Position, &Position), want: &[&Token]) -> Option<String> {
    let (a, b) = (&want[0].range.0, &want[want.len() - 1].range.1);
    if p(r.0) == p(a) && p(r.1) == p(b) { None } else { Some(format!("range {:?} .. {:?}, expected {:?} .. {:?}", p(r.0), p(r.1), p(a), p(b))) }
}
fn walk(id: &str, node: &Node, want: &[&Token]) -> Option<String> {
    if want.is_empty() {
        return None;
    }
    match node {
        Node::Expression(e) => {
            if id == "C16" {
                let mut m = ends(e.range(), want);
                if let ASTExpression::Value(v) = e {
                    m = m.or(ends(v.range(), want));
                    if let ASTExpressionValue::VariableAccess(a) = v {
                        m = m.or(ends(a.range(), want));
                    }
                }
                return m;
            }
            one(e.tokens(), want).or_else(|| match e {
                ASTExpression::BinaryOperation(b) => one(b.tokens(), want),
                ASTExpression::UnaryOperation(b) => one(b.tokens(), want),
                ASTExpression::NaryOperation(b) => one(b.tokens(), want),
                ASTExpression::Value(v) => one(v.tokens(), want).or_else(|| match v {
                    ASTExpressionValue::VariableAccess(a) => one(a.tokens(), want),
                    _ => None,
                }),
            })
        }
        #[cfg(lolcode_verif)]
        Node::VariableAssignment(a) => {
            use lolcode_ast::parser::verif_hooks::ASTStatement;
            if id == "C16" { ends(a.range(), want) } else { one(a.tokens(), want) }
        }
        _ => None,
    }
}
