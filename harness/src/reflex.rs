//! Reference tokenizer, written from the lexical rules (C05) over characters.
use lolcode_ast::lexer::{Keywords, NumberToken, TokenType as TT, TokenValue};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pos {
    pub line: i32,
    pub column: i32,
    pub bytes: i32,
    pub chars: i32,
}
pub fn pos_at(text: &str, bytes: usize) -> Pos {
    let before = &text[..bytes];
    let line = 1 + before.matches('\n').count() as i32;
    let last = before.rfind('\n').map_or(0, |i| i + 1);
    Pos { line, column: 1 + (bytes - last) as i32, bytes: bytes as i32, chars: before.chars().count() as i32 }
}

#[derive(Clone, Debug)]
pub struct RTok {
    pub kind: TT,
    pub start: usize,
    pub end: usize,
}

pub const KEYWORDS: &[(Keywords, &str)] = &[
    (Keywords::BTW, "BTW"),
    (Keywords::HAS_A, "HAS A"),
    (Keywords::OBTW, "OBTW"),
    (Keywords::SRS, "SRS"),
    (Keywords::TLDR, "TLDR"),
    (Keywords::BUKKIT, "BUKKIT"),
    (Keywords::HAI, "HAI"),
    (Keywords::KTHXBYE, "KTHXBYE"),
    (Keywords::I_HAS_A, "I HAS A"),
    (Keywords::ITZ, "ITZ"),
    (Keywords::NOOB, "NOOB"),
    (Keywords::TROOF, "TROOF"),
    (Keywords::FAIL, "FAIL"),
    (Keywords::WIN, "WIN"),
    (Keywords::NUMBR, "NUMBR"),
    (Keywords::NUMBAR, "NUMBAR"),
    (Keywords::YARN, "YARN"),
    (Keywords::MKAY, "MKAY"),
    (Keywords::AN, "AN"),
    (Keywords::SUM_OF, "SUM OF"),
    (Keywords::DIFF_OF, "DIFF OF"),
    (Keywords::PRODUKT_OF, "PRODUKT OF"),
    (Keywords::QUOSHUNT_OF, "QUOSHUNT OF"),
    (Keywords::MOD_OF, "MOD OF"),
    (Keywords::BIGGR_OF, "BIGGR OF"),
    (Keywords::SMALLR_OF, "SMALLR OF"),
    (Keywords::BOTH_SAEM, "BOTH SAEM"),
    (Keywords::BOTH_OF, "BOTH OF"),
    (Keywords::EITHER_OF, "EITHER OF"),
    (Keywords::WON_OF, "WON OF"),
    (Keywords::NOT, "NOT"),
    (Keywords::UPPIN, "UPPIN"),
    (Keywords::NERFIN, "NERFIN"),
    (Keywords::ALL_OF, "ALL OF"),
    (Keywords::ANY_OF, "ANY OF"),
    (Keywords::DIFFRINT, "DIFFRINT"),
    (Keywords::SMOOSH, "SMOOSH"),
    (Keywords::MAEK, "MAEK"),
    (Keywords::IS_NOW, "IS NOW"),
    (Keywords::VISIBLE, "VISIBLE"),
    (Keywords::GIMMEH, "GIMMEH"),
    (Keywords::O_RLY, "O RLY"),
    (Keywords::YA_RLY, "YA RLY"),
    (Keywords::NO_WAI, "NO WAI"),
    (Keywords::OIC, "OIC"),
    (Keywords::MEBBE, "MEBBE"),
    (Keywords::WTF, "WTF"),
    (Keywords::OMGWTF, "OMGWTF"),
    (Keywords::OMG, "OMG"),
    (Keywords::GTFO, "GTFO"),
    (Keywords::IM_IN_YR, "IM IN YR"),
    (Keywords::YR, "YR"),
    (Keywords::TIL, "TIL"),
    (Keywords::WILE, "WILE"),
    (Keywords::IM_OUTTA_YR, "IM OUTTA YR"),
    (Keywords::HOW_IZ_I, "HOW IZ I"),
    (Keywords::IF_U_SAY_SO, "IF U SAY SO"),
    (Keywords::FOUND_YR, "FOUND YR"),
    (Keywords::I_IZ, "I IZ"),
    (Keywords::R, "R"),
    (Keywords::A, "A"),
];

fn letter(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}
fn word(rest: &str, w: &str) -> bool {
    rest.strip_prefix(w).map_or(false, |r| !r.chars().next().map_or(false, letter))
}

/// one token at the start of `rest`; Err: unclosed comment
pub fn token_at(rest: &str) -> Result<(TT, usize), ()> {
    for (s, k) in [
        (",", TT::Comma),
        ("!", TT::ExclamationMark),
        ("?", TT::QuestionMark),
    ] {
        if rest.starts_with(s) {
            return Ok((k, s.len()));
        }
    }
    if let Some(r) = rest.strip_prefix("BTW") {
        let line = r.split('\n').next().unwrap();
        return Ok((TT::CommentSingleLine(line.into()), 3 + line.len()));
    }
    if let Some(r) = rest.strip_prefix("OBTW") {
        return match r.find("TLDR") {
            None => Err(()),
            Some(i) => Ok((TT::CommentMultiLine(r[..i].into()), 4 + i + 4)),
        };
    }
    if rest.starts_with("'Z") {
        return Ok((TT::BukkitSlotAccess, 2));
    }
    if rest.starts_with("...") || rest.starts_with('\u{2026}') {
        return Ok((TT::Ellipsis, 3));
    }
    for (w, v) in [("WIN", TokenValue::Boolean(true)), ("FAIL", TokenValue::Boolean(false)), ("NOOB", TokenValue::NOOB)] {
        if word(rest, w) {
            return Ok((TT::Value(v), w.len()));
        }
    }
    for (k, s) in KEYWORDS {
        if word(rest, s) {
            return Ok((TT::Keyword(k.clone()), s.len()));
        }
    }
    // number: the longest run of an optional sign, digits and at most one dot
    let b = rest.as_bytes();
    let mut i = 0;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let mut dots = 0;
    let mut digits = 0;
    while i < b.len() && (b[i].is_ascii_digit() || (b[i] == b'.' && dots == 0)) {
        if b[i] == b'.' {
            dots += 1
        } else {
            digits += 1
        }
        i += 1;
    }
    if digits > 0 {
        let s = &rest[..i];
        let v = if dots == 0 { s.parse::<i32>().ok().map(NumberToken::Int) } else { s.parse::<f32>().ok().map(NumberToken::Float) };
        if let Some(v) = v {
            return Ok((TT::Value(TokenValue::Number(v)), i));
        }
    }
    if rest.starts_with('"') {
        let cs: Vec<(usize, char)> = rest.char_indices().collect();
        let mut j = 1;
        while j < cs.len() {
            if cs[j].1 == ':' && j + 1 < cs.len() && (cs[j + 1].1 == '"' || cs[j + 1].1 == ':') {
                j += 2;
                continue;
            }
            if cs[j].1 == '"' {
                return Ok((TT::Value(TokenValue::String(rest[1..cs[j].0].into())), cs[j].0 + 1));
            }
            j += 1;
        }
        return Ok((TT::Value(TokenValue::String(rest[1..].into())), rest.len()));
    }
    let l = rest.chars().take_while(|c| letter(*c)).count();
    if l > 0 {
        return Ok((TT::Identifier(rest[..l].into()), l));
    }
    let c = rest.chars().next().unwrap();
    Ok((TT::Symbol(c.to_string()), c.len_utf8()))
}

/// Err(start of the unclosed comment)
pub fn lex(text: &str) -> Result<Vec<RTok>, usize> {
    let mut v = vec![];
    let mut i = 0;
    while i < text.len() {
        let c = text.as_bytes()[i];
        if c == b' ' || c == b'\t' || c == b'\n' {
            i += 1;
            continue;
        }
        let (kind, len) = token_at(&text[i..]).map_err(|_| i)?;
        v.push(RTok { kind, start: i, end: i + len });
        i += len;
    }
    Ok(v)
}
