//! Executions of the real lexer, and the reference's view of the same input.
use crate::canon;
use joker::Lexer;
use mc_core::guarded;
use reflex::{Err as RErr, Kind, Pos, Text, Tok};

/// The syntactic goal used for token `i`: `modes[min(i, last)]`, '1' = an
/// operator is expected (a slash is a division), '0' = an operand is.
#[derive(Clone)]
pub struct Case<'a> { pub modes: &'a [u8], pub src: &'a str }

impl<'a> Case<'a> {
    pub fn parse(case: &'a [u8]) -> Case<'a> {
        let bar = case.iter().position(|&b| b == b'|').expect("case: modes|source");
        Case { modes: &case[..bar], src: std::str::from_utf8(&case[bar + 1..]).expect("utf-8 case") }
    }
    pub fn operator(&self, i: usize) -> bool {
        if self.modes.is_empty() { return false; }
        self.modes[i.min(self.modes.len() - 1)] == b'1'
    }
}

pub fn make(modes: &str, src: &str) -> Vec<u8> { format!("{}|{}", modes, src).into_bytes() }

/// What a family of lexemes an input position belongs to.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fam { Trivia, Punct, Word, Num, Str, Re, Eof, Illegal }

pub struct Stream {
    pub toks: Vec<Tok>,
    pub err: Option<RErr>,
    /// The lexeme family in which the error arose (reference streams only).
    pub err_fam: Fam,
}

pub fn fam(k: &Kind) -> Fam {
    match *k {
        Kind::Punct(_) => Fam::Punct,
        Kind::Reserved(_) | Kind::Ident(..) => Fam::Word,
        Kind::Number(..) => Fam::Num,
        Kind::Str(..) => Fam::Str,
        Kind::RegExp(..) => Fam::Re,
        Kind::Eof => Fam::Eof,
    }
}

pub fn reference(t: &Text, c: &Case) -> Stream {
    let mut toks = vec![];
    let (mut i, mut start) = (0, true);
    loop {
        let op = c.operator(toks.len());
        match t.token(i, start, !op) {
            Ok((tok, j)) => {
                let eof = tok.kind == Kind::Eof;
                toks.push(tok);
                if eof { return Stream { toks, err: None, err_fam: Fam::Eof }; }
                i = j;
                start = false;
            }
            Err(e) => {
                let err_fam = match t.next_start(i, start) {
                    None => Fam::Trivia,
                    Some(k) => match t.chars[k] {
                        '"' | '\'' => Fam::Str,
                        '0'..='9' | '.' => Fam::Num,
                        '/' => Fam::Re,
                        '\\' => Fam::Word,
                        c if reflex::is_id_start(c) => Fam::Word,
                        _ => Fam::Illegal,
                    },
                };
                return Stream { toks, err: Some(e), err_fam };
            }
        }
    }
}

/// Reads the whole stream from the implementation.
pub fn implementation(c: &Case) -> Result<Stream, String> {
    guarded(|| {
        let mut l = Lexer::new(c.src.chars());
        let mut toks = vec![];
        let limit = c.src.len() + 8;
        loop {
            match l.read_token(c.operator(toks.len())) {
                Ok(t) => {
                    let t = canon::tok(&t);
                    let eof = t.kind == Kind::Eof;
                    toks.push(t);
                    if eof { return Stream { toks, err: None, err_fam: Fam::Eof }; }
                    if toks.len() > limit { panic!("more tokens than characters"); }
                }
                Err(e) => return Stream { toks, err: Some(canon::err(&e)), err_fam: Fam::Eof },
            }
        }
    })
}

/// The class of a token: its kind without literal values.
pub fn class(k: &Kind) -> String {
    match *k {
        Kind::Punct(p) => p.to_string(),
        Kind::Reserved(r) => r.to_string(),
        Kind::Ident(..) => "<ident>".into(),
        Kind::Number(..) => "<number>".into(),
        Kind::Str(..) => "<string>".into(),
        Kind::RegExp(..) => "<regexp>".into(),
        Kind::Eof => "<eof>".into(),
    }
}

pub fn same_class(a: &Kind, b: &Kind) -> bool {
    match (a, b) {
        (Kind::Punct(p), Kind::Punct(q)) => p == q,
        (Kind::Reserved(p), Kind::Reserved(q)) => p == q,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}

/// A token at index i, the error at index i, or nothing.
pub enum Item<'a> { Tok(&'a Tok), Err(&'a RErr), None }

impl Stream {
    pub fn item(&self, i: usize) -> Item<'_> {
        if i < self.toks.len() { return Item::Tok(&self.toks[i]); }
        match self.err { Some(ref e) if i == self.toks.len() => Item::Err(e), _ => Item::None }
    }
    pub fn len(&self) -> usize { self.toks.len() + self.err.is_some() as usize }
    pub fn shape(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for t in &self.toks {
            match t.kind {
                Kind::Punct(p) => p.hash(&mut h),
                Kind::Reserved(p) => p.hash(&mut h),
                Kind::Ident(ref s, b) => (1, s, b).hash(&mut h),
                Kind::Number(v, _) => (2, v.to_bits()).hash(&mut h),
                Kind::Str(ref s, _) => (3, s).hash(&mut h),
                Kind::RegExp(ref p, ref f) => (4, p, f).hash(&mut h),
                Kind::Eof => 5.hash(&mut h),
            }
            t.newline.hash(&mut h);
        }
        self.err.hash(&mut h);
        h.finish()
    }
}

pub fn show(i: &Item) -> String {
    match *i {
        Item::Tok(t) => {
            let what = match t.kind {
                Kind::Punct(p) => format!("`{}`", p),
                Kind::Reserved(p) => format!("keyword {}", p),
                ref k => format!("{:?}", k),
            };
            format!("{}@{}..{}{}", what, show_pos(t.start), show_pos(t.end), if t.newline { " (newline before)" } else { "" })
        }
        Item::Err(e) => format!("error {:?}", e),
        Item::None => "nothing".into(),
    }
}
pub fn show_pos(p: Pos) -> String { format!("{}({}:{})", p.offset, p.line, p.column) }

/// Calls `f` with every goal assignment that matters for `src`: both goals at
/// each token that the reference sees starting with a slash; elsewhere `base`.
pub fn each_modes(src: &str, base: u8, max: usize, f: &mut dyn FnMut(&str)) {
    let t = Text::new(src);
    let mut modes = String::new();
    walk(&t, 0, true, base, &mut modes, max, f);
}

fn walk(t: &Text, mut i: usize, mut start: bool, base: u8, modes: &mut String, forks: usize, f: &mut dyn FnMut(&str)) {
    let outer = modes.len();
    loop {
        let slash = t.next_start(i, start).map_or(false, |k| t.chars.get(k) == Some(&'/'));
        if slash && forks > 0 {
            for &o in b"01" {
                modes.push(o as char);
                match t.token(i, start, o == b'0') {
                    Ok((ref tok, j)) if tok.kind != Kind::Eof => walk(t, j, false, base, modes, forks - 1, f),
                    _ => f(modes),
                }
                modes.pop();
            }
            break;
        }
        // No choice: no recursion.
        let o = if base == b'1' { b'1' } else { b'0' };
        modes.push(o as char);
        match t.token(i, start, o == b'0') {
            Ok((ref tok, j)) if tok.kind != Kind::Eof => { i = j; start = false; }
            _ => { f(modes); break; }
        }
    }
    modes.truncate(outer);
}
