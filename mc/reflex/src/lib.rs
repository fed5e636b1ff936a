//! The reference tokenizer: the ECMAScript lexical grammar (ES2015 clause 11
//! and Annex B.1.1-B.1.3), as much of it as joker supports, written over a
//! random-access character array and shared with nothing in /repo.
//!
//! It is a function of (text, position, at-line-start flag, goal symbol), so a
//! lexer *state* of the model is the pair (position, at-line-start) and one
//! token read is a transition.

use ucd::Codepoint;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Pos { pub offset: u32, pub line: u32, pub column: u32 }

#[derive(Clone, PartialEq, Debug)]
pub enum Num {
    /// digits, exponent
    Dec(String, Option<Exp>),
    /// radix, prefix letter (None for legacy octal), digits
    Radix(u32, Option<char>, String),
    Float(Option<String>, Option<String>, Option<Exp>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Exp { pub e: char, pub sign: Option<char>, pub digits: String }

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Punct(&'static str),
    Reserved(&'static str),
    /// text, contextually special (an unescaped contextual keyword)
    Ident(String, bool),
    Number(f64, Num),
    /// value, source
    Str(String, String),
    /// pattern, flags
    RegExp(String, String),
    Eof,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tok { pub kind: Kind, pub start: Pos, pub end: Pos, pub newline: bool }

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Err {
    IncompleteWordEscape(Option<char>),
    UnterminatedComment,
    UnterminatedRegExp(Option<char>),
    MissingExponent(Option<char>),
    UnterminatedString(Option<char>),
    MissingBinaryDigits,
    MissingOctalDigits,
    MissingHexDigits,
    IllegalChar(char),
    InvalidDigit(char),
    IllegalUnicode(u32),
    IdAfterNumber(char),
    DigitAfterNumber(char),
    ReservedWordWithEscapes(&'static str),
}

pub const RESERVED: &[&str] = &[
    "null", "true", "false",
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do",
    "else", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof",
    "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while",
    "with", "enum",
];

pub const CONTEXTUAL: &[&str] = &[
    "arguments", "async", "await", "eval", "from", "get", "implements", "interface", "let", "of",
    "package", "private", "protected", "public", "set", "static", "target", "yield",
];

/// Longest first, so that the first match is the maximal munch.
/// ("=>", "**" and template delimiters are not tokens of this lexer.)
pub const PUNCTUATORS: &[&str] = &[
    ">>>=", "...", "===", "!==", ">>>", "<<=", ">>=",
    "<=", ">=", "==", "!=", "++", "--", "<<", ">>", "&&", "||",
    "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
    "{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^",
    "!", "~", "?", ":", "=",
];

pub fn is_newline(c: char) -> bool { matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}') }

/// WhiteSpace: TAB, VT, FF, SP, NBSP, ZWNBSP and category Zs (listed).
pub fn is_space(c: char) -> bool {
    matches!(c as u32, 9 | 0xB | 0xC | 0x20 | 0xA0 | 0xFEFF | 0x1680 | 0x2000..=0x200A | 0x202F | 0x205F | 0x3000)
}
pub fn is_id_start(c: char) -> bool { c == '$' || c == '_' || Codepoint::is_id_start(c) }
pub fn is_id_part(c: char) -> bool {
    c == '$' || c == '_' || c == '\u{200C}' || c == '\u{200D}' || Codepoint::is_id_continue(c)
}

fn dec(c: char) -> bool { c >= '0' && c <= '9' }
fn oct(c: char) -> bool { c >= '0' && c <= '7' }

/// The nearest double (ties to even) of an integer given by its digits.
pub fn radix_value(digits: &str, radix: u32) -> f64 {
    // Big-endian bits of the integer.
    let w = match radix { 2 => 1, 8 => 3, 16 => 4, _ => unreachable!() };
    let mut bits: Vec<u8> = vec![];
    for c in digits.chars() {
        let d = c.to_digit(radix).unwrap();
        for k in (0..w).rev() { bits.push(((d >> k) & 1) as u8); }
    }
    let first = match bits.iter().position(|&b| b == 1) { Some(p) => p, None => return 0.0 };
    let bits = &bits[first..];
    let n = bits.len();
    let mut m: u64 = 0;
    for i in 0..n.min(53) { m = (m << 1) | bits[i] as u64; }
    let mut exp = n.saturating_sub(53);
    if n > 53 {
        let half = bits[53] == 1;
        let rest = bits[54..].iter().any(|&b| b == 1);
        if half && (rest || m & 1 == 1) {
            m += 1;
            if m == 1 << 53 { m >>= 1; exp += 1; }
        }
        if exp + 53 > 1024 { return f64::INFINITY; }
        // m * 2^exp with 2^52 <= m < 2^53
        return f64::from_bits((((exp as u64) + 1075) << 52) | (m & ((1 << 52) - 1)));
    }
    m as f64
}

pub struct Text {
    pub chars: Vec<char>,
    pos: Vec<Pos>,
}

impl Text {
    pub fn new(s: &str) -> Text {
        let chars: Vec<char> = s.chars().collect();
        let mut pos = Vec::with_capacity(chars.len() + 1);
        let (mut line, mut column) = (0, 0);
        for i in 0..=chars.len() {
            pos.push(Pos { offset: i as u32, line, column });
            if i == chars.len() { break; }
            // CR LF is one line terminator, ended by its LF.
            let ends = match chars[i] {
                '\r' => chars.get(i + 1) != Some(&'\n'),
                c => is_newline(c),
            };
            if ends { line += 1; column = 0; } else { column += 1; }
        }
        Text { chars, pos }
    }
    pub fn pos(&self, i: usize) -> Pos { self.pos[i] }
    fn at(&self, i: usize) -> Option<char> { self.chars.get(i).copied() }
    fn looking(&self, i: usize, s: &str) -> bool {
        let mut j = i;
        for c in s.chars() { if self.at(j) != Some(c) { return false; } j += 1; }
        true
    }
    fn slice(&self, a: usize, b: usize) -> String { self.chars[a..b].iter().collect() }

    /// Skips trivia from `i`; returns (first significant index, newline seen, at line start).
    fn trivia(&self, mut i: usize, mut line_start: bool) -> Result<(usize, bool, bool), Err> {
        let mut newline = false;
        loop {
            let c = match self.at(i) { Some(c) => c, None => break };
            if is_space(c) { i += 1; continue; }
            if is_newline(c) { i += 1; newline = true; line_start = true; continue; }
            let single = if self.looking(i, "//") { 2 }
                else if self.looking(i, "<!--") { 4 }
                else if line_start && self.looking(i, "-->") { 3 }
                else { 0 };
            if single > 0 {
                i += single;
                while self.at(i).map_or(false, |c| !is_newline(c)) { i += 1; }
                continue;
            }
            if self.looking(i, "/*") {
                let mut j = i + 2;
                let mut nl = false;
                loop {
                    if self.looking(j, "*/") { break; }
                    match self.at(j) {
                        None => return Err(Err::UnterminatedComment),
                        Some(c) => { nl |= is_newline(c); j += 1; }
                    }
                }
                i = j + 2;
                if nl { newline = true; line_start = true; }
                continue;
            }
            break;
        }
        Ok((i, newline, line_start))
    }

    /// One token from index `i`. `regexp`: the goal symbol allows a regular
    /// expression. Returns the token and the index after it.
    pub fn token(&self, i: usize, line_start: bool, regexp: bool) -> Result<(Tok, usize), Err> {
        let (i, newline, _) = self.trivia(i, line_start)?;
        let (kind, j) = self.lexeme(i, regexp)?;
        Ok((Tok { kind, start: self.pos(i), end: self.pos(j), newline }, j))
    }

    /// The index at which the next token would start (None: trivia error).
    pub fn next_start(&self, i: usize, line_start: bool) -> Option<usize> { self.trivia(i, line_start).ok().map(|t| t.0) }

    fn lexeme(&self, i: usize, regexp: bool) -> Result<(Kind, usize), Err> {
        let c = match self.at(i) { Some(c) => c, None => return Ok((Kind::Eof, i)) };
        if c == '"' || c == '\'' { return self.string(i); }
        if dec(c) || (c == '.' && self.at(i + 1).map_or(false, dec)) { return self.number(i); }
        if c == '\\' || is_id_start(c) { return self.word(i); }
        if c == '/' && regexp { return self.regexp(i); }
        for p in PUNCTUATORS {
            if self.looking(i, p) { return Ok((Kind::Punct(p), i + p.len())); }
        }
        Err(Err::IllegalChar(c))
    }

    fn hex(&self, i: usize) -> Result<u32, Err> {
        match self.at(i) {
            None => Err(Err::MissingHexDigits),
            Some(c) => match c { '0'..='9' | 'a'..='f' | 'A'..='F' => Ok(c.to_digit(16).unwrap()), _ => Err(Err::InvalidDigit(c)) },
        }
    }

    /// After `\u`: the code point (saturating) and the index after the escape.
    fn unicode_escape(&self, i: usize) -> Result<(u32, usize), Err> {
        let mut code: u32 = 0;
        if self.at(i) != Some('{') {
            for k in 0..4 { code = code * 16 + self.hex(i + k)?; }
            return Ok((code, i + 4));
        }
        let mut j = i + 1;
        loop {
            let d = self.hex(j)?;
            code = if code > (u32::MAX >> 4) { u32::MAX } else { code * 16 + d };
            j += 1;
            if self.at(j) == Some('}') { return Ok((code, j + 1)); }
        }
    }

    fn word_text(&self, mut i: usize, first_must_start: bool) -> Result<(String, bool, usize), Err> {
        let mut s = String::new();
        let mut escaped = false;
        loop {
            match self.at(i) {
                Some('\\') => {
                    escaped = true;
                    if self.at(i + 1) != Some('u') { return Err(Err::IncompleteWordEscape(self.at(i + 1))); }
                    let (code, j) = self.unicode_escape(i + 2)?;
                    let c = char::from_u32(code).ok_or(Err::IllegalUnicode(code))?;
                    let ok = if first_must_start && s.is_empty() { is_id_start(c) } else { is_id_part(c) };
                    if !ok { return Err(Err::IllegalUnicode(code)); }
                    s.push(c);
                    i = j;
                }
                Some(c) if is_id_part(c) => { s.push(c); i += 1; }
                _ => return Ok((s, escaped, i)),
            }
        }
    }

    fn word(&self, i: usize) -> Result<(Kind, usize), Err> {
        let (s, escaped, j) = self.word_text(i, true)?;
        if let Some(r) = RESERVED.iter().find(|r| **r == s) {
            return if escaped { Err(Err::ReservedWordWithEscapes(r)) } else { Ok((Kind::Reserved(r), j)) };
        }
        let special = !escaped && CONTEXTUAL.contains(&&s[..]);
        Ok((Kind::Ident(s, special), j))
    }

    fn digits(&self, mut i: usize, p: fn(char) -> bool) -> usize {
        while self.at(i).map_or(false, p) { i += 1; }
        i
    }

    fn exponent(&self, i: usize) -> Result<(Option<Exp>, usize), Err> {
        let e = match self.at(i) { Some(c @ 'e') | Some(c @ 'E') => c, _ => return Ok((None, i)) };
        let (sign, k) = match self.at(i + 1) { Some(c @ '+') | Some(c @ '-') => (Some(c), i + 2), _ => (None, i + 1) };
        let j = self.digits(k, dec);
        if j == k { return Err(Err::MissingExponent(self.at(k))); }
        Ok((Some(Exp { e, sign, digits: self.slice(k, j) }), j))
    }

    fn number(&self, i: usize) -> Result<(Kind, usize), Err> {
        let (kind, j) = self.number_body(i)?;
        match self.at(j) {
            Some(c) if is_id_start(c) || c == '\\' => Err(Err::IdAfterNumber(c)),
            Some(c) if dec(c) => Err(Err::DigitAfterNumber(c)),
            _ => Ok((kind, j)),
        }
    }

    fn number_body(&self, i: usize) -> Result<(Kind, usize), Err> {
        if self.at(i) == Some('0') {
            if let Some(l) = self.at(i + 1) {
                let (radix, p, missing): (u32, fn(char) -> bool, Err) = match l {
                    'x' | 'X' => (16, |c| c.is_ascii_hexdigit(), Err::MissingHexDigits),
                    'o' | 'O' => (8, oct, Err::MissingOctalDigits),
                    'b' | 'B' => (2, |c| c == '0' || c == '1', Err::MissingBinaryDigits),
                    _ => (0, dec, Err::MissingHexDigits),
                };
                if radix > 0 {
                    let j = self.digits(i + 2, p);
                    if j == i + 2 {
                        return Err(match self.at(j) { Some(c) => Err::InvalidDigit(c), None => missing });
                    }
                    let s = self.slice(i + 2, j);
                    return Ok((Kind::Number(radix_value(&s, radix), Num::Radix(radix, Some(l), s)), j));
                }
            }
        }
        if self.at(i) == Some('.') {
            let j = self.digits(i + 1, dec);
            let (exp, k) = self.exponent(j)?;
            return Ok((Kind::Number(self.decimal(i, k), Num::Float(None, Some(self.slice(i + 1, j)), exp)), k));
        }
        let j = self.digits(i, dec);
        let int = self.slice(i, j);
        if int.len() > 1 && int.starts_with('0') && int.chars().all(oct) {
            return Ok((Kind::Number(radix_value(&int, 8), Num::Radix(8, None, int)), j));
        }
        if self.at(j) == Some('.') {
            let k = self.digits(j + 1, dec);
            let (exp, l) = self.exponent(k)?;
            return Ok((Kind::Number(self.decimal(i, l), Num::Float(Some(int), Some(self.slice(j + 1, k)), exp)), l));
        }
        let (exp, k) = self.exponent(j)?;
        Ok((Kind::Number(self.decimal(i, k), Num::Dec(int, exp)), k))
    }

    /// The nearest double of the decimal literal text[i..j] (std's correctly rounded parser).
    fn decimal(&self, i: usize, j: usize) -> f64 { self.slice(i, j).parse().expect("decimal literal") }

    fn string(&self, i: usize) -> Result<(Kind, usize), Err> {
        let quote = self.at(i).unwrap();
        let mut v: Vec<u32> = vec![];           // code points and UTF-16 surrogates
        let mut j = i + 1;
        loop {
            let c = match self.at(j) { Some(c) => c, None => return Err(Err::UnterminatedString(None)) };
            if c == quote { break; }
            if is_newline(c) { return Err(Err::UnterminatedString(Some(c))); }
            if c != '\\' { v.push(c as u32); j += 1; continue; }
            j += 1;
            let c = match self.at(j) { Some(c) => c, None => return Err(Err::UnterminatedString(None)) };
            match c {
                '0'..='7' => {
                    let max = if c <= '3' { 3 } else { 2 };
                    let mut k = j;
                    while k < j + max && self.at(k).map_or(false, oct) { k += 1; }
                    v.push(u32::from_str_radix(&self.slice(j, k), 8).unwrap());
                    j = k;
                }
                'x' => { v.push(self.hex(j + 1)? * 16 + self.hex(j + 2)?); j += 3; }
                'u' => {
                    let (code, k) = self.unicode_escape(j + 1)?;
                    if code > 0x10FFFF { return Err(Err::IllegalUnicode(code)); }
                    v.push(code);
                    j = k;
                }
                '\r' if self.at(j + 1) == Some('\n') => j += 2,
                c if is_newline(c) => j += 1,
                c => {
                    v.push(match c { 'n' => 10, 't' => 9, 'r' => 13, 'b' => 8, 'v' => 11, 'f' => 12, c => c as u32 });
                    j += 1;
                }
            }
        }
        // A high-low pair of escapes is one code point; a lone surrogate has no
        // representation in the implementation's string type and reads as '?'.
        let mut value = String::new();
        let mut k = 0;
        while k < v.len() {
            let c = v[k];
            if (0xD800..0xDC00).contains(&c) && k + 1 < v.len() && (0xDC00..0xE000).contains(&v[k + 1]) {
                value.push(char::from_u32(0x10000 + ((c - 0xD800) << 10) + (v[k + 1] - 0xDC00)).unwrap());
                k += 2;
            } else {
                value.push(char::from_u32(c).unwrap_or('?'));
                k += 1;
            }
        }
        Ok((Kind::Str(value, self.slice(i, j + 1)), j + 1))
    }

    fn regexp(&self, i: usize) -> Result<(Kind, usize), Err> {
        let mut j = i + 1;
        let mut class = false;
        loop {
            let c = match self.at(j) { Some(c) => c, None => return Err(Err::UnterminatedRegExp(None)) };
            if is_newline(c) { return Err(Err::UnterminatedRegExp(Some(c))); }
            if c == '\\' {
                match self.at(j + 1) {
                    None => return Err(Err::UnterminatedRegExp(None)),
                    Some(d) if is_newline(d) => return Err(Err::UnterminatedRegExp(Some(d))),
                    _ => {}
                }
                j += 2;
                continue;
            }
            if c == '/' && !class { break; }
            if c == '[' { class = true; }
            if c == ']' { class = false; }
            j += 1;
        }
        let pattern = self.slice(i + 1, j);
        let (flags, _, k) = self.word_text(j + 1, true)?;
        Ok((Kind::RegExp(pattern, flags), k))
    }
}

/// The whole token stream under a per-token goal choice; stops after EOF or the first error.
pub fn tokens(t: &Text, mut goal: impl FnMut(usize) -> bool) -> (Vec<Tok>, Option<Err>) {
    let mut out = vec![];
    let mut i = 0;
    let mut start = true;
    loop {
        match t.token(i, start, goal(out.len())) {
            Ok((tok, j)) => {
                let eof = tok.kind == Kind::Eof;
                out.push(tok);
                if eof { return (out, None); }
                i = j;
                start = false;
            }
            Err(e) => return (out, Some(e)),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn radix() {
        assert_eq!(radix_value("200000000000011", 16), 144115188075855904.0);
        assert_eq!(radix_value("1", 2), 1.0);
        for n in [0u64, 1, 7, 255, 1 << 52, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 3, u64::MAX, u64::MAX - 1024, u64::MAX - 1023] {
            assert_eq!(radix_value(&format!("{:x}", n), 16), n as f64);
            assert_eq!(radix_value(&format!("{:o}", n), 8), n as f64);
            assert_eq!(radix_value(&format!("{:b}", n), 2), n as f64);
        }
        assert_eq!(radix_value(&format!("1{}", "0".repeat(256)), 16), f64::INFINITY);
        assert_eq!(radix_value(&"f".repeat(256), 16), f64::INFINITY);
        assert_eq!(radix_value(&format!("fffffffffffff8{}", "0".repeat(242)), 16), f64::MAX);
    }
}
