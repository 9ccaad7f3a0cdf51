//! Input generation: deterministic in (seed, case number).
use crate::reflex::KEYWORDS;
use lolcode_ast::lexer::{Keywords as K, NumberToken, Position, Range, Token, TokenType as TT, TokenValue};

#[derive(Clone)]
pub enum Input {
    Text(String),
    Toks(Vec<Token>),
}

pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn b(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    pub fn p(&mut self, pct: usize) -> bool {
        self.b(100) < pct
    }
    pub fn of<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.b(v.len())]
    }
}

/// literals of the current sources: strings, and numbers (as sizes)
pub struct Dict {
    pub strings: Vec<String>,
    pub sizes: Vec<usize>,
}
fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some('u') => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    out.push(c)
                }
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}
pub fn dict(dir: &str) -> Dict {
    let mut d = Dict { strings: vec![], sizes: vec![] };
    let mut todo = vec![std::path::PathBuf::from(dir)];
    let mut files = vec![];
    while let Some(p) = todo.pop() {
        if let Ok(rd) = std::fs::read_dir(&p) {
            for e in rd.flatten() {
                todo.push(e.path());
            }
        } else if p.extension().map_or(false, |e| e == "rs") && !p.ends_with("tests.rs") {
            files.push(p);
        }
    }
    files.sort();
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        let s = s.split("#[cfg(test)]").next().unwrap_or("");
        for line in s.lines() {
            let l = line.trim_start();
            if l.starts_with("//") {
                continue;
            }
            let cs: Vec<char> = l.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                if cs[i] == '"' {
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '"' {
                        if cs[j] == '\\' {
                            j += 1;
                        }
                        j += 1;
                    }
                    let t: String = cs[i + 1..j.min(cs.len())].iter().collect();
                    d.strings.push(unescape(&t));
                    i = j + 1;
                } else if cs[i] == '\'' {
                    // a character literal, unless it is a lifetime
                    let end = if i + 1 < cs.len() && cs[i + 1] == '\\' { (i + 3..(i + 12).min(cs.len())).find(|j| cs[*j] == '\'') } else if i + 2 < cs.len() && cs[i + 2] == '\'' { Some(i + 2) } else { None };
                    match end {
                        Some(e) => {
                            d.strings.push(unescape(&cs[i + 1..e].iter().collect::<String>()));
                            i = e + 1;
                        }
                        None => i += 1,
                    }
                } else if cs[i].is_ascii_digit() && (i == 0 || !(cs[i - 1].is_ascii_alphanumeric() || cs[i - 1] == '_')) {
                    let mut j = i;
                    while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                        j += 1;
                    }
                    let t: String = cs[i..j].iter().collect::<String>().replace('_', "");
                    let v = if let Some(h) = t.strip_prefix("0x") { usize::from_str_radix(h, 16).ok() } else { t.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() };
                    if let Some(v) = v {
                        if v > 2 && v <= 70000 {
                            for k in [v - 1, v, v + 1] {
                                d.sizes.push(k);
                            }
                        }
                        d.strings.push(v.to_string());
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
        }
    }
    d.strings.retain(|s| !s.is_empty() && s.len() < 200);
    d.strings.sort();
    d.strings.dedup();
    d.sizes.sort();
    d.sizes.dedup();
    d
}

#[derive(Clone, Debug)]
pub enum A {
    T(TT),
    NL,
}

pub fn kw(k: K) -> A {
    A::T(TT::Keyword(k))
}
const NAMES: &[&str] = &["a", "b", "c", "var", "foo_bar", "X", "loop", "_"];

pub struct G<'a> {
    pub r: Rng,
    pub d: &'a Dict,
    pub out: Vec<A>,
    pub comments: bool,
    /// malformed statements among the others
    pub flaws: bool,
}

impl<'a> G<'a> {
    pub fn new(r: Rng, d: &'a Dict) -> Self {
        G { r, d, out: vec![], comments: false, flaws: false }
    }
    fn k(&mut self, k: K) {
        self.out.push(kw(k));
        self.glue();
    }
    /// an ellipsis joining two lines, or a comment, now and then
    fn glue(&mut self) {
        if self.r.p(3) {
            if self.comments && self.r.p(20) {
                self.comment();
            }
            self.out.push(A::T(TT::Ellipsis));
            if self.comments && self.r.p(20) {
                self.comment();
            }
            self.out.push(A::NL);
        } else if self.comments && self.r.p(4) {
            self.comment();
        }
    }
    fn comment(&mut self) {
        let w: String = match self.r.b(10) {
            0 => String::new(),
            1 if !self.d.strings.is_empty() => self.r.of(&self.d.strings).clone(),
            _ => " c".into(),
        };
        if self.r.p(50) {
            self.out.push(A::T(TT::CommentMultiLine(format!("{} ", w))));
        } else {
            self.out.push(A::T(TT::CommentSingleLine(w)));
            // a single-line comment is followed by a new line in real code, but need not be here
            if self.r.p(50) {
                self.out.push(A::NL);
            }
        }
    }
    fn t(&mut self, t: TT) {
        self.out.push(A::T(t));
        self.glue();
    }
    pub fn name(&mut self) -> String {
        if self.r.p(3) && !self.d.strings.is_empty() {
            let s = self.r.of(&self.d.strings).clone();
            if self.r.p(10) || s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
                return s;
            }
        }
        if self.r.p(2) {
            let n = self.size(200);
            return "x".repeat(n.max(1));
        }
        self.r.of(NAMES).to_string()
    }
    pub fn size(&mut self, max: usize) -> usize {
        let v: Vec<usize> = self.d.sizes.iter().copied().filter(|s| *s <= max).collect();
        if !v.is_empty() && self.r.p(40) {
            return *self.r.of(&v);
        }
        *self.r.of(&[1usize, 2, 3, 5, 8, 13, 20, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300]) % (max + 1)
    }
    pub fn ident(&mut self) {
        if self.r.p(20) {
            self.k(K::SRS);
        }
        let n = self.name();
        self.t(TT::Identifier(n));
    }
    pub fn var(&mut self) {
        self.ident();
        while self.r.p(25) {
            self.t(TT::BukkitSlotAccess);
            self.ident();
        }
    }
    pub fn literal(&mut self) {
        let v = match self.r.b(7) {
            0 => TokenValue::Number(NumberToken::Float(1.5)),
            1 => TokenValue::Boolean(true),
            2 => TokenValue::Boolean(false),
            3 => TokenValue::NOOB,
            4 | 5 => TokenValue::Number(NumberToken::Int(match self.r.b(12) {
                0 => 0,
                1 => -1 - self.r.b(100) as i32,
                2 => *self.r.of(&[i32::MIN, i32::MAX, 255, 256, 1000, 65536]),
                3 | 4 if !self.d.strings.is_empty() => self.r.of(&self.d.strings).parse().unwrap_or(7),
                _ => self.r.b(100) as i32,
            })),
            _ => TokenValue::String(match self.r.b(8) {
                0 => String::new(),
                1 => "a\nb".into(),
                2 | 3 if !self.d.strings.is_empty() => self.r.of(&self.d.strings).clone(),
                4 => "é".repeat(self.size(300)),
                _ => "text".into(),
            }),
        };
        if self.r.p(5) {
            self.k(K::NOOB);
        } else {
            self.t(TT::Value(v));
        }
    }
    pub fn expr(&mut self, depth: usize) {
        let x = self.r.b(100);
        // keeps the size of deep trees bounded
        let depth = if self.out.len() > 1500 { 0 } else { depth };
        if depth == 0 || x < 25 || (depth > 6 && x < 40) {
            if self.r.p(50) {
                self.literal()
            } else {
                self.var()
            }
        } else if x < 60 && depth <= 6 || x < 45 {
            let k = self
                .r
                .of(&[K::BOTH_OF, K::EITHER_OF, K::WON_OF, K::SUM_OF, K::DIFF_OF, K::PRODUKT_OF, K::QUOSHUNT_OF, K::MOD_OF, K::BIGGR_OF, K::SMALLR_OF, K::BOTH_SAEM, K::DIFFRINT])
                .clone();
            self.k(k);
            self.expr(depth - 1);
            if self.r.p(60) {
                self.k(K::AN);
            }
            self.expr(depth - 1);
        } else if x < 75 || depth > 6 && x < 90 {
            self.k(K::NOT);
            self.expr(depth - 1);
        } else {
            let k = self.r.of(&[K::ALL_OF, K::ANY_OF, K::SMOOSH]).clone();
            self.k(k);
            let n = if self.r.p(3) { self.size(40) } else { self.r.b(5) };
            for i in 0..n {
                self.expr(if n > 8 { 0 } else { depth - 1 });
                if (i + 1 < n && self.r.p(60)) || self.r.p(3) {
                    self.k(K::AN);
                }
            }
            if self.r.p(60) {
                self.k(K::MKAY);
            }
        }
    }
    pub fn depth(&mut self) -> usize {
        if self.r.p(1) { self.size(40) } else { self.r.b(4) }
    }
    pub fn simple(&mut self) {
        let d = self.depth();
        if self.flaws && self.r.p(15) {
            // a statement that is most likely malformed
            if self.r.p(50) {
                let k = self.r.of(&[K::I_HAS_A, K::VISIBLE, K::GIMMEH, K::FOUND_YR, K::I_IZ, K::SUM_OF, K::NOT, K::R, K::AN, K::MKAY, K::ITZ, K::GTFO]).clone();
                self.k(k);
            }
            for _ in 0..self.r.b(3) {
                self.any();
            }
            return;
        }
        match self.r.b(16) {
            0 | 1 => {
                self.k(K::I_HAS_A);
                self.ident();
                if self.r.p(60) {
                    self.k(K::ITZ);
                    if self.r.p(35) {
                        let k = self.r.of(&[K::NUMBR, K::NUMBAR, K::YARN, K::NOOB, K::BUKKIT, K::TROOF]).clone();
                        self.k(k);
                    } else {
                        self.expr(d);
                    }
                }
            }
            2 | 3 => {
                self.var();
                self.k(K::R);
                self.expr(d);
            }
            4 => {
                self.var();
                self.k(K::HAS_A);
                self.ident();
                self.k(K::ITZ);
                self.expr(d);
            }
            5 | 6 => {
                self.k(K::VISIBLE);
                for _ in 0..self.r.b(4) {
                    self.expr(d);
                }
                if self.r.p(40) {
                    self.t(TT::ExclamationMark);
                }
            }
            7 => {
                self.k(K::GIMMEH);
                self.var();
            }
            8 => {
                self.k(K::FOUND_YR);
                self.expr(d);
            }
            9 => self.k(K::GTFO),
            10 => {
                self.k(K::HAI);
                for _ in 0..self.r.b(4) {
                    self.any();
                }
            }
            11 => self.k(K::KTHXBYE),
            12 | 13 => {
                self.k(K::I_IZ);
                self.var();
                let n = self.r.b(4);
                for i in 0..n {
                    self.k(K::YR);
                    self.expr(d);
                    if i + 1 < n {
                        self.k(K::AN);
                    }
                }
                self.k(K::MKAY);
            }
            _ => self.expr(d),
        }
    }
    pub fn any(&mut self) {
        let t = any_kind(&mut self.r);
        self.out.push(A::T(t));
    }
    pub fn sep(&mut self) {
        if self.comments && self.r.p(15) {
            self.comment();
        }
        match self.r.b(10) {
            0..=5 => self.out.push(A::NL),
            6..=7 => self.out.push(A::T(TT::Comma)),
            8 => {
                self.out.push(A::T(TT::Comma));
                self.out.push(A::NL);
            }
            _ => {
                self.out.push(A::NL);
                let n = self.r.b(3);
                for _ in 0..n {
                    let c = match self.r.b(3) {
                        0 => A::T(TT::Ellipsis),
                        1 => A::T(TT::Comma),
                        _ => A::NL,
                    };
                    self.out.push(c);
                }
                self.out.push(A::NL);
            }
        }
        if self.comments && self.r.p(15) {
            self.comment();
            if self.r.p(60) {
                self.out.push(A::NL);
            }
        }
    }
    pub fn block(&mut self, nest: usize, max: usize) {
        let n = if max == 0 { 0 } else { self.r.b(max + 1) };
        for _ in 0..n {
            self.stmt(nest);
            self.sep();
        }
    }
    pub fn stmt(&mut self, nest: usize) {
        if nest == 0 || self.out.len() > 2500 || self.r.p(55) {
            return self.simple();
        }
        let m = if nest > 6 { 1 } else { 3 };
        match self.r.b(4) {
            0 => {
                self.k(K::IM_IN_YR);
                let nm = self.name();
                self.t(TT::Identifier(nm));
                if self.r.p(50) {
                    let k = self.r.of(&[K::UPPIN, K::NERFIN]).clone();
                    self.k(k);
                    self.k(K::YR);
                    self.var();
                }
                if self.r.p(50) {
                    let k = self.r.of(&[K::TIL, K::WILE]).clone();
                    self.k(k);
                    self.expr(2);
                }
                self.sep();
                self.block(nest - 1, m);
                self.k(K::IM_OUTTA_YR);
                let nm = self.name();
                self.t(TT::Identifier(nm));
            }
            1 => {
                self.k(K::HOW_IZ_I);
                self.ident();
                let n = self.r.b(4);
                for i in 0..n {
                    self.k(K::YR);
                    self.ident();
                    if i + 1 < n {
                        self.k(K::AN);
                    }
                }
                self.sep();
                self.block(nest - 1, m);
                self.k(K::IF_U_SAY_SO);
            }
            2 => {
                self.k(K::O_RLY);
                self.question();
                self.sep();
                if self.r.p(80) {
                    self.k(K::YA_RLY);
                    self.sep();
                    self.block(nest - 1, m);
                }
                for _ in 0..self.r.b(3) {
                    self.k(K::MEBBE);
                    self.expr(2);
                    self.sep();
                    self.block(nest - 1, m);
                }
                if self.r.p(60) {
                    self.k(K::NO_WAI);
                    self.sep();
                    self.block(nest - 1, m);
                }
                self.k(K::OIC);
            }
            _ => {
                self.k(K::WTF);
                self.question();
                self.sep();
                for _ in 0..self.r.b(4) {
                    self.k(K::OMG);
                    self.expr(1);
                    self.sep();
                    self.block(nest - 1, m);
                }
                if self.r.p(60) {
                    self.k(K::OMGWTF);
                    self.sep();
                    self.block(nest - 1, m);
                }
                self.k(K::OIC);
            }
        }
    }
    fn question(&mut self) {
        if self.r.p(30) {
            self.t(TT::Symbol("?".into()));
        } else {
            self.t(TT::QuestionMark);
        }
    }
    pub fn mutate(&mut self) {
        let n = 1 + self.r.b(3);
        for _ in 0..n {
            if self.out.is_empty() {
                self.any();
                continue;
            }
            let i = self.r.b(self.out.len());
            match self.r.b(9) {
                0 | 1 => {
                    self.out.remove(i);
                }
                2 => {
                    let x = self.out[i].clone();
                    self.out.insert(i, x);
                }
                3 | 4 => {
                    let t = any_kind(&mut self.r);
                    self.out[i] = A::T(t);
                }
                5 => {
                    let t = any_kind(&mut self.r);
                    self.out.insert(i, A::T(t));
                }
                6 => {
                    let j = self.r.b(self.out.len());
                    self.out.swap(i, j);
                }
                7 => {
                    self.out.insert(i, A::NL);
                }
                _ => {
                    self.out.truncate(i);
                }
            }
        }
    }
}

pub fn kinds() -> Vec<TT> {
    let mut v: Vec<TT> = KEYWORDS.iter().map(|k| TT::Keyword(k.0.clone())).collect();
    v.extend([
        TT::Identifier("a".into()),
        TT::Symbol("?".into()),
        TT::Symbol("+".into()),
        TT::Value(TokenValue::Number(NumberToken::Int(1))),
        TT::Value(TokenValue::Number(NumberToken::Float(0.5))),
        TT::Value(TokenValue::String("s".into())),
        TT::Value(TokenValue::Boolean(true)),
        TT::Value(TokenValue::NOOB),
        TT::BukkitSlotAccess,
        TT::Ellipsis,
        TT::Comma,
        TT::ExclamationMark,
        TT::QuestionMark,
        TT::CommentSingleLine("c".into()),
        TT::CommentMultiLine("c".into()),
    ]);
    v
}
pub fn any_kind(r: &mut Rng) -> TT {
    let k = kinds();
    if r.p(40) {
        k[r.b(k.len())].clone()
    } else {
        k[KEYWORDS.len() + r.b(k.len() - KEYWORDS.len())].clone()
    }
}

/// positions for a row of atoms: lines grow at NL; columns are unique within the whole input
pub fn layout(atoms: &[A], r: &mut Rng) -> Vec<Token> {
    let multi = r.p(15);
    let jump = r.p(10);
    let mut line = if r.p(5) { 1 + r.b(100000) as i32 } else { 1 };
    let mut col = 1;
    let mut v: Vec<Token> = vec![];
    for a in atoms {
        match a {
            A::NL => {
                let by = if !jump { 1 } else if r.p(30) { *r.of(&[127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 24]) } else { 1 + r.b(300) as i32 };
                line = line.saturating_add(by)
            }
            A::T(t) => {
                let s = Position { line, column: col, bytes: col - 1, chars: col - 1 };
                if multi && r.p(20) && matches!(t, TT::Value(TokenValue::String(_)) | TT::CommentMultiLine(_)) {
                    line += 1;
                }
                col += 1;
                let e = Position { line, column: col, bytes: col - 1, chars: col - 1 };
                v.push(Token { token_type: t.clone(), range: Range(s, e) });
            }
        }
    }
    v
}

/// tokens at any positions
pub fn wild(kinds: Vec<TT>, r: &mut Rng) -> Vec<Token> {
    let n = 1 + r.b(3);
    let mut line = 1;
    kinds
        .into_iter()
        .enumerate()
        .map(|(i, t)| {
            let c = i as i32 + 1;
            match r.b(4) {
                0 => line = 1 + r.b(n) as i32,
                1 if r.p(20) => line = [i32::MIN, -1, 0, i32::MAX][r.b(4)],
                _ => {}
            }
            let s = Position { line, column: c, bytes: c, chars: c };
            if r.p(15) {
                line = 1 + r.b(n) as i32;
            }
            Token { token_type: t, range: Range(s, Position { line, column: c + 1, bytes: c + 1, chars: c + 1 }) }
        })
        .collect()
}

pub fn spell(t: &TT) -> String {
    match t {
        TT::Identifier(s) | TT::Symbol(s) => s.clone(),
        TT::Keyword(k) => KEYWORDS.iter().find(|x| x.0 == *k).map(|x| x.1.to_string()).unwrap_or_default(),
        TT::Value(TokenValue::Number(NumberToken::Int(i))) => i.to_string(),
        TT::Value(TokenValue::Number(NumberToken::Float(f))) => format!("{:?}", f),
        TT::Value(TokenValue::String(s)) => format!("\"{}\"", s),
        TT::Value(TokenValue::Boolean(b)) => if *b { "WIN" } else { "FAIL" }.into(),
        TT::Value(TokenValue::NOOB) => "NOOB".into(),
        TT::CommentSingleLine(s) => format!("BTW{}\n", s),
        TT::CommentMultiLine(s) => format!("OBTW{}TLDR", s),
        TT::BukkitSlotAccess => "'Z".into(),
        TT::Ellipsis => "...".into(),
        TT::Comma => ",".into(),
        TT::ExclamationMark => "!".into(),
        TT::QuestionMark => "?".into(),
    }
}
pub fn render(atoms: &[A], r: &mut Rng) -> String {
    let mut s = String::new();
    for a in atoms {
        match a {
            A::NL => s.push('\n'),
            A::T(t) => {
                s.push_str(&spell(t));
                if !r.p(3) {
                    s.push(' ');
                }
            }
        }
    }
    s
}

const FRAGS: &[&str] = &[
    ",", "!", "?", "BTW", "OBTW", "TLDR", "'Z", "'", "Z", "...", "..", ".", "\u{2026}", "WIN", "FAIL", "NOOB", "WINA", "FAIL_", "A", "AN", "R", "I IZ", "I HAS A", "I", "HAS A", "SUM OF", "SUM", "OF", "WTF",
    "OMG", "OMGWTF", "O RLY", "O RLY?", "1", "0", "-", "+", "12", "-7", "3.5", "-.5", "5.", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "\"", "\"a\"", "\"\"", ":", "::", ":\"", "\":\"\"",
    "\"::\"", "\":", "\"\n\"", "a", "b_c", "_", "x1", "1x", " ", "  ", "\t", "\n", "\r", "é", "ü\"", "\"é\"", "𝄞", "日本", "\u{a0}", "\u{0}", "(", ")", "+5", "++", "a'Z b", "BTWx", "OBTW é TLDR", "OBTW\nTLDR", "BTW é\n", "\"a\nb\" c",
    "TLDRx", "1.2.3", "1...", "MKAY", "YR", "it", "HOW IZ I", "HOW  IZ I", "HOW\nIZ I",
];

pub fn text_fragments(d: &Dict) -> Vec<String> {
    let mut v: Vec<String> = FRAGS.iter().map(|s| s.to_string()).collect();
    v.extend(KEYWORDS.iter().map(|k| k.1.to_string()));
    for s in &d.strings {
        if !v.contains(s) && s.len() < 24 {
            v.push(s.clone());
        }
    }
    v
}

/// text number i: first all combinations of few fragments, then random texts
pub fn text(i: u64, seed: u64, d: &Dict) -> String {
    let f = text_fragments(d);
    let n = f.len() as u64;
    let mut k = i;
    if k == 0 {
        return String::new();
    }
    k -= 1;
    if k < n {
        return f[k as usize].clone();
    }
    k -= n;
    if k < n * n {
        return format!("{}{}", f[(k / n) as usize], f[(k % n) as usize]);
    }
    let mut r = Rng::new(seed, i);
    let mode = r.b(100);
    if mode < 35 {
        let m = 3 + r.b(6);
        let mut s = String::new();
        for _ in 0..m {
            s.push_str(r.of(&f));
            if r.p(20) {
                s.push_str(r.of(&[" ", "\n", "\t", "a", "1", "_", "\""]));
            }
        }
        return s;
    }
    if mode < 45 {
        // characters
        let m = 1 + r.b(12);
        const C: &[char] = &['"', ':', '.', '1', '9', '-', '+', 'a', 'Z', '_', '\'', ' ', '\n', '\t', '\r', 'é', '\u{2026}', '𝄞', ',', '?', 'A', 'N', 'R'];
        return (0..m).map(|_| *r.of(C)).collect();
    }
    if mode < 50 {
        if r.p(40) {
            // one long token of any kind, or a long gap
            let v: Vec<usize> = d.sizes.iter().copied().filter(|s| *s <= 140000).collect();
            let n = if !v.is_empty() && r.p(30) {
                *r.of(&v)
            } else if r.p(90) {
                1usize << r.b(13)
            } else {
                1usize << (13 + r.b(5))
            };
            let n = (n + r.b(9)).saturating_sub(4) + if r.p(30) { r.b(n + 1) } else { 0 };
            let mut s = String::new();
            if r.p(40) {
                s.push_str(r.of(&f));
                s.push_str(r.of(&[" ", "\n", ""]));
            }
            let (open, unit, close): (&str, &str, &str) = *r.of(&[
                ("BTW", "x", "\n"), ("BTW", "x", ""), ("BTW ", "é", "\n"), ("BTW ", "é", ""), ("OBTW", "é", "TLDR"), ("é", "é", ""), ("OBTW", "x", "TLDR"), ("OBTW", "\n", "TLDR"), ("OBTW ", "x y\n", ""),
                ("\"", "x", "\""), ("\"", "x", ""), ("\"", "é", "\""), ("\"", "\n", "\""), ("\"", ":\"", "\""), ("", "x", " "), ("", "Xy", ""), ("_", "_", "\n"),
                ("", "0", ""), ("-", "0", "1"), ("1.", "0", ""), ("", "1", ".5"), ("", " ", ""), ("", "\n", ""), ("", "\t", ""), ("", "\n \t", ""), ("", ",", ""), ("", "...", ""),
            ]);
            s.push_str(open);
            s.push_str(&unit.repeat(if ",...01".contains(unit) { n.min(5000) } else { n }));
            s.push_str(close);
            if r.p(60) {
                s.push_str(r.of(&f));
                s.push_str(r.of(&[" ", "\n", " 1", "a"]));
            }
            return s;
        }
        // repetition: long words, many lines, long strings
        let g = { let mut g = G::new(Rng::new(seed, i + 7), d); let mut n = g.size(300); if r.p(10) { n = g.size(70000) }; n };
        let mut s = String::new();
        for _ in 0..1 + r.b(3) {
            if r.p(40) {
                s.push_str(r.of(&f));
            }
            let unit = r.of(&["a", "1", "\n", " ", "é", "\"", ":", "a ", "a\n", "...", "'Z", "1 ", "BTW x\n", "\t", "+", "OMG ", "_", "\"\n\"", ".", "\n\n\t"]);
            s.push_str(&unit.repeat(g));
            s.push_str(r.of(&f));
        }
        return s;
    }
    let mut g = G::new(Rng::new(seed, i), d);
    g.comments = r.p(50);
    g.flaws = r.p(30);
    let nest = r.b(3);
    g.block(nest, 6);
    if r.p(50) {
        g.mutate();
    }
    let mut s = render(&g.out.clone(), &mut r);
    if r.p(40) {
        // insert a fragment anywhere
        for _ in 0..1 + r.b(2) {
            let mut at = r.b(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, r.of(&f));
        }
    }
    s
}

/// token list number i
pub fn tokens(i: u64, seed: u64, d: &Dict) -> Vec<Token> {
    let ks = kinds();
    let n = ks.len() as u64;
    let mut k = i;
    if k == 0 {
        return vec![];
    }
    k -= 1;
    let mut r = Rng::new(seed, i);
    let row = |v: Vec<TT>, lines: u64| -> Vec<Token> {
        let mut line = 1;
        v.into_iter()
            .enumerate()
            .map(|(i, t)| {
                if i > 0 && (lines >> (i - 1)) & 1 == 1 {
                    line += 1;
                }
                let c = i as i32 + 1;
                Token { token_type: t, range: Range(Position { line, column: c, bytes: c, chars: c }, Position { line, column: c + 1, bytes: c + 1, chars: c + 1 }) }
            })
            .collect()
    };
    if k < n {
        return row(vec![ks[k as usize].clone()], 0);
    }
    k -= n;
    if k < 2 * n * n {
        return row(vec![ks[(k / 2 / n) as usize].clone(), ks[(k / 2 % n) as usize].clone()], k & 1);
    }
    let mode = r.b(100);
    if mode < 15 {
        // three kinds, any line pattern
        let v = vec![ks[r.b(n as usize)].clone(), any_kind(&mut r), any_kind(&mut r)];
        let l = r.u() & 3;
        return row(v, l);
    }
    if mode < 22 {
        let m = 1 + r.b(10);
        let v = (0..m).map(|_| any_kind(&mut r)).collect();
        return wild(v, &mut r);
    }
    let mut g = G::new(Rng::new(seed ^ 0x55, i), d);
    g.comments = r.p(30);
    g.flaws = r.p(50);
    if mode < 45 {
        g.simple();
        if r.p(40) {
            g.sep();
            g.simple();
        }
    } else if mode < 90 {
        let nest = r.b(4);
        g.block(nest, 6);
    } else if mode < 94 {
        // deep nesting of blocks
        let nest = 4 + g.size(24);
        g.stmt(nest);
        g.sep();
        g.stmt(1);
    } else if mode < 97 {
        // many statements
        let m = g.size(400);
        for _ in 0..m {
            g.simple();
            g.sep();
        }
    } else {
        // repeated simple parts
        let m = g.size(400);
        match r.b(9) {
            5 => {
                g.k(K::O_RLY);
                g.question();
                g.sep();
                if g.r.p(80) {
                    g.k(K::YA_RLY);
                    g.sep();
                    g.block(1, 1);
                }
                for _ in 0..m.min(150) {
                    g.k(K::MEBBE);
                    g.expr(1);
                    g.sep();
                    g.block(0, 1);
                }
                if g.r.p(50) {
                    g.k(K::NO_WAI);
                    g.sep();
                    g.block(1, 1);
                }
                g.k(K::OIC);
            }
            6 => {
                g.k(K::WTF);
                g.question();
                g.sep();
                for _ in 0..m.min(150) {
                    g.k(K::OMG);
                    g.expr(0);
                    g.sep();
                    g.block(0, 1);
                }
                if g.r.p(50) {
                    g.k(K::OMGWTF);
                    g.sep();
                    g.block(1, 1);
                }
                g.k(K::OIC);
            }
            7 => {
                // surplus tokens, or many commas and ellipses
                g.k(K::GTFO);
                for _ in 0..m {
                    match g.r.b(if m & 1 == 0 { 3 } else { 30 }) {
                        0 => g.out.push(A::T(TT::Comma)),
                        1 => { g.out.push(A::T(TT::Ellipsis)); g.out.push(A::NL); }
                        2 => g.out.push(A::NL),
                        _ => g.t(TT::Value(TokenValue::NOOB)),
                    }
                }
            }
            0 => {
                g.ident();
                for _ in 0..m {
                    g.t(TT::BukkitSlotAccess);
                    g.ident();
                }
            }
            1 => {
                g.k(K::SMOOSH);
                let d = g.r.b(2);
                for _ in 0..m {
                    g.expr(d);
                    if g.r.p(50) {
                        g.k(K::AN);
                    }
                }
                if g.r.p(50) {
                    g.k(K::MKAY);
                }
            }
            2 => {
                g.k(K::I_IZ);
                g.var();
                for j in 0..m {
                    if j > 0 {
                        g.k(K::AN);
                    }
                    g.k(K::YR);
                    g.expr(1);
                }
                g.k(K::MKAY);
            }
            3 => {
                g.k(K::HOW_IZ_I);
                g.ident();
                for j in 0..m {
                    if j > 0 {
                        g.k(K::AN);
                    }
                    g.k(K::YR);
                    g.ident();
                }
                g.sep();
                g.stmt(0);
                g.sep();
                g.k(K::IF_U_SAY_SO);
            }
            4 => {
                g.k(K::VISIBLE);
                let d = g.r.b(2);
                for _ in 0..m {
                    g.expr(d);
                }
                g.t(TT::ExclamationMark);
            }
            _ => {
                for _ in 0..m.min(60) {
                    g.k(K::NOT);
                }
                g.expr(0);
            }
        }
    }
    if r.p(35) {
        g.mutate();
    }
    if r.p(5) {
        let v = g.out.iter().filter_map(|a| if let A::T(t) = a { Some(t.clone()) } else { None }).collect();
        return wild(v, &mut r);
    }
    if r.p(20) {
        // as the tokenizer of the crate gives them for a text
        let t = render(&g.out.clone(), &mut r);
        if let Ok(Ok(v)) = std::panic::catch_unwind(|| lolcode_ast::tokenize(t)) {
            return v;
        }
    }
    layout(&g.out.clone(), &mut r)
}
