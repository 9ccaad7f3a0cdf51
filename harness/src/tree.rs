//! AST values as generic trees, read from their `{:?}` text (so that private parts are visible too).
use lolcode_ast::lexer::Token;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    /// a token of the input, by its index; usize::MAX: not a token of the input
    Tok(usize),
    /// a struct or variant with its fields (tuple fields are named "0", "1", ..)
    N(String, Vec<(String, T)>),
    List(Vec<T>),
}

pub fn n(name: &str, fields: Vec<(&str, T)>) -> T {
    let mut f: Vec<(String, T)> = fields.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    f.sort_by(|a, b| a.0.cmp(&b.0));
    T::N(name.to_string(), f)
}
pub fn n1(name: &str, x: T) -> T {
    n(name, vec![("0", x)])
}
pub fn none() -> T {
    n("None", vec![])
}
pub fn opt(x: Option<T>) -> T {
    match x {
        Some(x) => n1("Some", x),
        None => none(),
    }
}

impl T {
    pub fn name(&self) -> &str {
        match self {
            T::N(s, _) => s,
            T::Tok(_) => "<token>",
            T::List(_) => "<list>",
        }
    }
    pub fn arg(&self) -> Option<&T> {
        match self {
            T::N(_, f) if f.len() == 1 => Some(&f[0].1),
            _ => None,
        }
    }
    pub fn field(&self, k: &str) -> Option<&T> {
        match self {
            T::N(_, f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn tokens(&self, out: &mut Vec<usize>) {
        match self {
            T::Tok(i) => out.push(*i),
            T::N(_, f) => f.iter().for_each(|x| x.1.tokens(out)),
            T::List(l) => l.iter().for_each(|x| x.tokens(out)),
        }
    }
    pub fn all_tokens(&self) -> Vec<usize> {
        let mut v = vec![];
        self.tokens(&mut v);
        v
    }
    pub fn show(&self) -> String {
        match self {
            T::Tok(usize::MAX) => "t?".into(),
            T::Tok(i) => format!("t{}", i),
            T::List(l) => format!("[{}]", l.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            T::N(s, f) if f.is_empty() => s.clone(),
            T::N(s, f) if f.len() == 1 && f[0].0 == "0" => format!("{}({})", s, f[0].1.show()),
            T::N(s, f) => format!("{}{{{}}}", s, f.iter().map(|x| format!("{}: {}", x.0, x.1.show())).collect::<Vec<_>>().join(", ")),
        }
    }
}

/// Structural equality. A struct whose private fields were renamed, added or removed is compared by
/// the sorted list of its parts instead of by field names.
pub fn same(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Tok(x), T::Tok(y)) => x == y,
        (T::List(x), T::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (T::N(s, f), T::N(t, g)) => {
            if s != t {
                return false;
            }
            if f.len() == g.len() && f.iter().zip(g).all(|(p, q)| p.0 == q.0) {
                return f.iter().zip(g).all(|(p, q)| same(&p.1, &q.1));
            }
            let key = |f: &Vec<(String, T)>| {
                let mut v: Vec<Vec<usize>> = f.iter().map(|x| { let mut t = x.1.all_tokens(); t.sort(); t }).filter(|x| !x.is_empty()).collect();
                v.sort();
                v
            };
            key(f) == key(g)
        }
        _ => false,
    }
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    index: &'a HashMap<String, usize>,
}

/// the texts under which the tokens of the input appear in `{:?}`
pub fn token_index(tokens: &[Token]) -> HashMap<String, usize> {
    let mut m = HashMap::new();
    for (i, t) in tokens.iter().enumerate() {
        m.entry(format!("{:?}", t)).or_insert(i);
    }
    m
}

pub fn parse_debug(s: &str, index: &HashMap<String, usize>) -> Option<T> {
    let mut p = P { s: s.as_bytes(), i: 0, index };
    let t = p.value()?;
    p.ws();
    if p.i == p.s.len() { Some(t) } else { None }
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn string(&mut self) -> Option<()> {
        self.i += 1;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'\\' => self.i += 2,
                b'"' => {
                    self.i += 1;
                    return Some(());
                }
                _ => self.i += 1,
            }
        }
        None
    }
    /// skips over a token type as printed
    fn skip_type(&mut self) -> Option<()> {
        let mut depth = 0;
        loop {
            match self.peek() {
                0 => return None,
                b'"' => self.string()?,
                b'(' => {
                    depth += 1;
                    self.i += 1;
                }
                b')' => {
                    depth -= 1;
                    self.i += 1;
                }
                b'\n' if depth == 0 => {
                    self.i += 1;
                    return Some(());
                }
                _ => self.i += 1,
            }
        }
    }
    fn value(&mut self) -> Option<T> {
        self.ws();
        let c = self.peek();
        if c == b'(' {
            // "(1, 1) -> (1, 2)\nType\n"
            let a = self.i;
            while self.peek() != b'\n' {
                if self.peek() == 0 {
                    return None;
                }
                self.i += 1;
            }
            self.i += 1;
            self.skip_type()?;
            let text = std::str::from_utf8(&self.s[a..self.i]).ok()?;
            return Some(T::Tok(self.index.get(text).copied().unwrap_or(usize::MAX)));
        }
        if c == b'[' {
            self.i += 1;
            let mut v = vec![];
            loop {
                if self.eat(b']') {
                    return Some(T::List(v));
                }
                v.push(self.value()?);
                self.eat(b',');
            }
        }
        if c == b'"' {
            let a = self.i;
            self.string()?;
            return Some(T::N(String::from_utf8_lossy(&self.s[a..self.i]).into(), vec![]));
        }
        let a = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'.' || self.peek() == b'-' {
            self.i += 1;
        }
        if a == self.i {
            return None;
        }
        let name = String::from_utf8_lossy(&self.s[a..self.i]).to_string();
        self.ws();
        if self.peek() == b'(' {
            self.i += 1;
            let mut f = vec![];
            loop {
                if self.eat(b')') {
                    return Some(T::N(name, f));
                }
                let v = self.value()?;
                f.push((f.len().to_string(), v));
                self.eat(b',');
            }
        }
        if self.peek() == b'{' {
            self.i += 1;
            let mut f = vec![];
            loop {
                if self.eat(b'}') {
                    f.sort_by(|a: &(String, T), b| a.0.cmp(&b.0));
                    return Some(T::N(name, f));
                }
                self.ws();
                let a = self.i;
                while self.peek() != b':' {
                    if self.peek() == 0 {
                        return None;
                    }
                    self.i += 1;
                }
                let k = String::from_utf8_lossy(&self.s[a..self.i]).trim().to_string();
                self.i += 1;
                let v = self.value()?;
                f.push((k, v));
                self.eat(b',');
            }
        }
        Some(T::N(name, vec![]))
    }
}
