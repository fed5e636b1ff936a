//! The oracles: each property's projection of an execution.
use crate::canon;
use crate::exec::*;
use joker::word::Name;
use joker::Lexer;
use mc_core::{guarded, Acc, Fail};
use reflex::{Err as RErr, Kind, Text};

fn fail<T>(key: &str, msg: String) -> Result<T, Fail> { Err(Fail::new(key, msg)) }

struct Both { text: Text, want: Stream, got: Stream }

/// Runs both sides; `None` when the implementation panicked, which is L01's
/// business unless it did so inside the given lexeme family.
fn both(case: &[u8], acc: &mut Acc) -> Result<Both, (Stream, String)> {
    let c = Case::parse(case);
    let text = Text::new(c.src);
    let want = reference(&text, &c);
    acc.states += want.len() as u64 + 1;
    acc.transitions += want.len() as u64;
    match implementation(&c) {
        Ok(got) => {
            acc.outcome(got.shape());
            acc.sample(|| format!("{} -> {}", mc_core::escape(case), summary(&got)));
            Ok(Both { text, want, got })
        }
        Err(m) => Err((want, m)),
    }
}

fn summary(s: &Stream) -> String {
    let mut v: Vec<String> = s.toks.iter().map(|t| match t.kind {
        Kind::Number(f, _) => format!("{}", f),
        Kind::Str(ref s, _) => format!("{:?}", s),
        Kind::RegExp(ref p, ref f) => format!("/{}/{}", p, f),
        Kind::Ident(ref s, _) => s.clone(),
        ref k => class(k),
    }).collect();
    if let Some(ref e) = s.err { v.push(format!("{:?}", e)); }
    v.join(" ")
}

// L01 ------------------------------------------------------------------

/// Keeps reading past errors and past the end: no panic, EOF is sticky.
pub fn totality(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let c = Case::parse(case);
    let n = c.src.chars().count();
    let r = guarded(|| {
        let mut l = Lexer::new(c.src.chars());
        let mut eofs = 0;
        let mut errs = 0;
        let mut shape = (0u32, 0u32);
        for i in 0..n + 12 {
            match l.read_token(c.operator(i)) {
                Ok(t) => {
                    let eof = t.value == joker::token::TokenData::EOF;
                    if eof { eofs += 1; } else if eofs > 0 { return Err("a token after the end of input".to_string()); }
                    shape.0 += 1;
                }
                Err(e) => {
                    if eofs > 0 { return Err("an error after the end of input".to_string()); }
                    // Rendering an error must not fail either.
                    let text = format!("{}", e);
                    if text.is_empty() { return Err(format!("no description for {:?}", e)); }
                    errs += 1;
                    shape.1 += 1;
                    if errs > 3 { break; }
                }
            }
            if eofs > 2 { break; }
        }
        if errs == 0 && eofs == 0 { return Err("more tokens than characters".to_string()); }
        Ok(shape)
    });
    acc.sample(|| format!("{} -> {:?}", mc_core::escape(case), r));
    match r {
        Err(m) => fail("panic", format!("lexer panics: {}", m)),
        Ok(Err(m)) => fail("totality", m),
        Ok(Ok(s)) => {
            acc.states += (s.0 + s.1 + 1) as u64;
            acc.transitions += (s.0 + s.1) as u64;
            acc.outcome(s);
            Ok(())
        }
    }
}

// L02 ------------------------------------------------------------------

/// Token classes and extents.
pub fn classes(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let b = match both(case, acc) { Ok(b) => b, Err((_, m)) => return fail("panic", m) };
    for i in 0..b.want.len().max(b.got.len()) {
        let (w, g) = (b.want.item(i), b.got.item(i));
        let ok = match (&w, &g) {
            (Item::Tok(w), Item::Tok(g)) => same_class(&w.kind, &g.kind) && (w.start.offset, w.end.offset) == (g.start.offset, g.end.offset),
            (Item::Err(_), Item::Err(_)) => true,
            _ => false,
        };
        if !ok { return fail("kind", format!("token {}: expected {}, got {}", i, show(&w), show(&g))); }
    }
    Ok(())
}

// L03 ------------------------------------------------------------------

/// Positions: consistent with the text on their own account, and equal to the
/// reference's for as long as both see the same token classes.
pub fn positions(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let b = match both(case, acc) { Ok(b) => b, Err(_) => return Ok(()) };
    let n = b.text.chars.len();
    let mut last = 0;
    let mut agree = true;
    for (i, g) in b.got.toks.iter().enumerate() {
        for (what, p) in [("start", g.start), ("end", g.end)] {
            if p.offset as usize > n { return fail("offset", format!("token {}: {} offset {} is beyond the input", i, what, p.offset)); }
            let want = b.text.pos(p.offset as usize);
            if want != p {
                return fail("linecol", format!("token {} ({}): {} is {}, the text has {} there", i, class(&g.kind), what, show_pos(p), show_pos(want)));
            }
        }
        if (g.start.offset as usize) < last || g.end.offset < g.start.offset {
            return fail("order", format!("token {}: {}..{} after {}", i, g.start.offset, g.end.offset, last));
        }
        last = g.end.offset as usize;
        if let Some(w) = b.want.toks.get(i) {
            agree = agree && same_class(&w.kind, &g.kind);
            if agree && (w.start, w.end) != (g.start, g.end) {
                return fail("extent", format!("token {}: expected {}, got {}", i, show(&Item::Tok(w)), show(&Item::Tok(g))));
            }
        } else { agree = false; }
    }
    Ok(())
}

// L04 ------------------------------------------------------------------

pub fn newlines(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let b = match both(case, acc) { Ok(b) => b, Err(_) => return Ok(()) };
    for (i, (w, g)) in b.want.toks.iter().zip(&b.got.toks).enumerate() {
        if !same_class(&w.kind, &g.kind) { break; }
        if w.newline != g.newline {
            return fail("newline", format!("token {} ({}): newline-before is {}, expected {}", i, class(&g.kind), g.newline, w.newline));
        }
    }
    Ok(())
}

// L05-L08 --------------------------------------------------------------

fn value_eq(w: &Kind, g: &Kind) -> bool {
    match (w, g) {
        (Kind::Number(a, s), Kind::Number(b, t)) => a.to_bits() == b.to_bits() && s == t,
        _ => w == g,
    }
}

/// Exact comparison of every lexeme of family `f`.
fn family(case: &[u8], acc: &mut Acc, f: Fam) -> Result<(), Fail> {
    let b = match both(case, acc) {
        Ok(b) => b,
        Err((w, m)) => return if w.err_fam == f || w.toks.iter().any(|t| fam(&t.kind) == f) { fail("panic", m) } else { Ok(()) },
    };
    for i in 0..b.want.len().max(b.got.len()) {
        let (w, g) = (b.want.item(i), b.got.item(i));
        let wf = match w { Item::Tok(t) => fam(&t.kind), Item::Err(_) => b.want.err_fam, Item::None => Fam::Eof };
        let gf = match g { Item::Tok(t) => fam(&t.kind), _ => Fam::Eof };
        let same = match (&w, &g) {
            (Item::Tok(w), Item::Tok(g)) => if wf == f { value_eq(&w.kind, &g.kind) } else { same_class(&w.kind, &g.kind) },
            // Which error is reported is L12's business.
            (Item::Err(_), Item::Err(_)) => true,
            _ => false,
        };
        if !same {
            if wf == f || gf == f { return fail("value", format!("token {}: expected {}, got {}", i, show(&w), show(&g))); }
            return Ok(());
        }
    }
    Ok(())
}

pub fn numbers(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    family(case, acc, Fam::Num)?;
    // The source form determines the value.
    let c = Case::parse(case);
    let r = guarded(|| {
        let mut l = Lexer::new(c.src.chars());
        let mut i = 0;
        while let Ok(t) = l.read_token(c.operator(i)) {
            i += 1;
            match t.value {
                joker::token::TokenData::EOF => break,
                joker::token::TokenData::Number(ref n) => if let Some(ref s) = n.source {
                    if s.value().to_bits() != n.value.to_bits() { return Err(format!("{:?}: value {} but its source denotes {}", s, n.value, s.value())); }
                },
                _ => {}
            }
        }
        Ok(())
    });
    match r { Ok(Err(m)) => fail("source", m), _ => Ok(()) }
}
pub fn strings(case: &[u8], acc: &mut Acc) -> Result<(), Fail> { family(case, acc, Fam::Str) }
pub fn regexps(case: &[u8], acc: &mut Acc) -> Result<(), Fail> { family(case, acc, Fam::Re) }

pub fn words(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    family(case, acc, Fam::Word)?;
    // Names survive the trip through strings.
    let c = Case::parse(case);
    let r = guarded(|| {
        let mut l = Lexer::new(c.src.chars());
        let mut i = 0;
        while let Ok(t) = l.read_token(c.operator(i)) {
            i += 1;
            match t.value {
                joker::token::TokenData::EOF => break,
                joker::token::TokenData::Reserved(r) => {
                    let want = canon::reserved(r);
                    if r.name() != want || r.into_string() != want { return Err(format!("{:?} is spelled {:?}", r, r.name())); }
                }
                joker::token::TokenData::Identifier(ref n) => {
                    let text = AsRef::<str>::as_ref(n).to_string();
                    if n.clone().into_string() != text { return Err(format!("{:?}: as_ref and into_string differ", n)); }
                    let back = Name::from(text.clone());
                    let special = reflex::CONTEXTUAL.contains(&&text[..]);
                    if AsRef::<str>::as_ref(&back) != text { return Err(format!("Name::from({:?}) is {:?}", text, back)); }
                    if special != back.atom().is_some() { return Err(format!("Name::from({:?}): contextual keyword {}", text, back.atom().is_some())); }
                    if let Some(a) = back.atom() { if a.name() != text || canon::atom(a) != text { return Err(format!("{:?} is spelled {:?}", a, a.name())); } }
                    if let Some(a) = n.atom() { if a.name() != text || back.atom() != Some(a) { return Err(format!("{:?} does not survive Name::from", a)); } }
                }
                _ => {}
            }
        }
        Ok(())
    });
    match r { Ok(Err(m)) => fail("name", m), _ => Ok(()) }
}

// L09 ------------------------------------------------------------------

/// Trivia: what is skipped, i.e. the classes of the tokens that remain and
/// where they start, plus unterminated comments.
pub fn trivia(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let b = match both(case, acc) {
        Ok(b) => b,
        Err((w, m)) => return if w.err_fam == Fam::Trivia || w.err.is_none() { fail("panic", m) } else { Ok(()) },
    };
    for i in 0..b.want.len().max(b.got.len()) {
        let (w, g) = (b.want.item(i), b.got.item(i));
        let same = match (&w, &g) {
            (Item::Tok(w), Item::Tok(g)) => same_class(&w.kind, &g.kind) && w.start.offset == g.start.offset,
            (Item::Err(_), Item::Err(g)) => b.want.err_fam != Fam::Trivia || **g == RErr::UnterminatedComment,
            _ => false,
        };
        if !same { return fail("trivia", format!("token {}: expected {}, got {}", i, show(&w), show(&g))); }
    }
    Ok(())
}

// L12 ------------------------------------------------------------------

/// Which error is reported, with which payload; and that nothing is reported
/// where the reference reports nothing.
pub fn errors(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let b = match both(case, acc) { Ok(b) => b, Err((_, m)) => return fail("panic", m) };
    let n = b.want.toks.len().min(b.got.toks.len());
    for i in 0..n { if !same_class(&b.want.toks[i].kind, &b.got.toks[i].kind) { return Ok(()); } }
    let (w, g) = (b.want.item(n), b.got.item(n));
    match (&w, &g) {
        (Item::Err(w), Item::Err(g)) if w == g => Ok(()),
        (Item::None, Item::None) => Ok(()),
        _ => fail("error", format!("item {}: expected {}, got {}", n, show(&w), show(&g))),
    }
}

// L10 ------------------------------------------------------------------

/// A history: `<operations>|<source>`.
///   p/P  peek (operand/operator)     r/R  read      s/S  skip
///   u    unread the token read last  e    reread    k    repeek
pub fn history(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let c = Case::parse(case);
    let text = Text::new(c.src);
    let r = guarded(|| run_history(c.modes, c.src, &text));
    acc.sample(|| mc_core::escape(case));
    match r {
        Err(m) => fail("panic", m),
        Ok(Err(m)) => fail("history", m),
        Ok(Ok((steps, out))) => { acc.states += steps + 1; acc.transitions += steps; acc.outcome(out); Ok(()) }
    }
}

fn run_history(ops: &[u8], src: &str, text: &Text) -> Result<(u64, u64), String> {
    use std::collections::VecDeque;
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut l = Lexer::new(src.chars());
    // The model: where lexing has got to, and the buffered tokens.
    let (mut at, mut start) = (0usize, true);
    let mut buf: VecDeque<reflex::Tok> = VecDeque::new();
    // Tokens read and not given back: (model, real).
    let mut held: Vec<(reflex::Tok, joker::token::Token)> = vec![];
    let mut posn = text.pos(0);
    // The ends of the tokens consumed and not given back; what a token that is
    // given back out of turn leaves behind is not specified.
    let (mut ends, mut in_turn) = (vec![text.pos(0)], true);
    let mut steps = 0;
    macro_rules! next { ($op:expr) => {
        match text.token(at, start, !$op) {
            Ok((t, j)) => { at = j; start = false; posn = t.end; Ok(t) }
            Err(e) => Err(e),
        }
    } }
    for (n, &o) in ops.iter().enumerate() {
        steps += 1;
        let at_step = |m: String| format!("step {} ({}): {}", n + 1, o as char, m);
        match o {
            b'p' | b'P' | b'r' | b'R' | b's' | b'S' => {
                let op = o.is_ascii_uppercase();
                let peek = o == b'p' || o == b'P';
                let want = if peek {
                    if buf.is_empty() { match next!(op) { Ok(t) => { buf.push_front(t); Ok(buf[0].clone()) } Err(e) => Err(e) } } else { Ok(buf[0].clone()) }
                } else { match buf.pop_front() { Some(t) => Ok(t), None => next!(op) } };
                let got = match o {
                    b'p' | b'P' => l.peek_token(op).map(|t| Some(t.clone())),
                    b'r' | b'R' => l.read_token(op).map(Some),
                    _ => l.skip_token(op).map(|_| None),
                };
                match (want, got) {
                    (Ok(w), Ok(Some(g))) => {
                        if !peek { ends.push(w.end); }
                        let c = canon::tok(&g);
                        if w != c { return Err(at_step(format!("expected {}, got {}", show(&Item::Tok(&w)), show(&Item::Tok(&c))))); }
                        class(&w.kind).hash(&mut h);
                        if !peek { held.push((w, g)); }
                    }
                    (Ok(w), Ok(None)) => { ends.push(w.end); 1.hash(&mut h) }
                    (Err(w), Err(g)) => {
                        let g = canon::err(&g);
                        if w != g { return Err(at_step(format!("expected error {:?}, got {:?}", w, g))); }
                        // The state after an error is not specified.
                        w.hash(&mut h);
                        return Ok((steps, h.finish()));
                    }
                    (w, g) => return Err(at_step(format!("expected {:?}, got {:?}", w, g))),
                }
            }
            b'u' => {
                let (w, g) = held.pop().expect("u needs a held token");
                in_turn &= ends.pop() == Some(w.end);
                buf.push_front(w);
                l.unread_token(g);
            }
            b'e' => {
                let w = buf.pop_front().expect("e needs a buffered token");
                let g = l.reread_token();
                let c = canon::tok(&g);
                if w != c { return Err(at_step(format!("expected {}, got {}", show(&Item::Tok(&w)), show(&Item::Tok(&c))))); }
                ends.push(w.end);
                held.push((w, g));
            }
            b'k' => {
                let g = canon::tok(l.repeek_token());
                if buf[0] != g { return Err(at_step(format!("expected {}, got {}", show(&Item::Tok(&buf[0])), show(&Item::Tok(&g))))); }
            }
            _ => unreachable!(),
        }
        let p = canon::pos(l.posn());
        if p != posn { return Err(at_step(format!("lexer position {}, expected {}", show_pos(p), show_pos(posn)))); }
        if in_turn {
            let (p, want) = (canon::pos(l.last_end()), *ends.last().unwrap());
            if p != want { return Err(at_step(format!("the last token read ends at {}, expected {}", show_pos(p), show_pos(want)))); }
        }
    }
    // Afterwards the rest of the input still comes out, buffered tokens first.
    for _ in 0..3 {
        let want = match buf.pop_front() { Some(t) => Ok(t), None => next!(true) };
        match (want, l.read_token(true)) {
            (Ok(w), Ok(g)) => { let g = canon::tok(&g); if w != g { return Err(format!("after the history: expected {}, got {}", show(&Item::Tok(&w)), show(&Item::Tok(&g)))); } }
            (Err(w), Err(g)) => { if w != canon::err(&g) { return Err(format!("after the history: expected {:?}, got {:?}", w, g)); } break; }
            (w, g) => return Err(format!("after the history: expected {:?}, got {:?}", w, g)),
        }
    }
    Ok((steps, h.finish()))
}

// L11 ------------------------------------------------------------------

struct Counted<'a> { chars: std::str::Chars<'a>, pulled: &'a std::cell::Cell<usize> }
impl<'a> Iterator for Counted<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.chars.next();
        if c.is_some() { self.pulled.set(self.pulled.get() + 1); }
        c
    }
}

pub const LOOKAHEAD: usize = 4;

/// Input is pulled on demand: after each token (or buffered peek) at most
/// LOOKAHEAD characters beyond its end have been taken from the source.
pub fn lookahead(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let c = Case::parse(case);
    acc.sample(|| mc_core::escape(case));
    let r = guarded(|| {
        let pulled = std::cell::Cell::new(0);
        let mut l = Lexer::new(Counted { chars: c.src.chars(), pulled: &pulled });
        if pulled.get() > 0 { return Err("input consumed by construction".to_string()); }
        let mut i = 0;
        let mut worst = 0;
        while let Ok(t) = l.read_token(c.operator(i)) {
            let ahead = pulled.get().saturating_sub(t.location.end.offset as usize);
            if ahead > LOOKAHEAD { return Err(format!("token {} ends at {} but {} characters have been consumed", i, t.location.end.offset, pulled.get())); }
            // A buffered token costs nothing.
            let before = pulled.get();
            l.unread_token(t.clone());
            let again = l.peek_token(true).map(|t| t.clone());
            let third = l.read_token(false);
            if again.as_ref().ok() != Some(&t) || third.as_ref().ok() != Some(&t) || pulled.get() != before {
                return Err(format!("token {}: a buffered token was read again from the input", i));
            }
            worst = worst.max(ahead);
            i += 1;
            if t.value == joker::token::TokenData::EOF { break; }
        }
        Ok((i, worst))
    });
    match r {
        Err(_) => Ok(()), // a panic is L01's business
        Ok(Err(m)) => fail("lookahead", m),
        Ok(Ok((i, worst))) => { acc.states += i as u64 + 1; acc.transitions += i as u64; acc.outcome((i, worst)); Ok(()) }
    }
}

// L13 ------------------------------------------------------------------

/// Two sources, separated by NUL: their first tokens are equal exactly when
/// they mean the same.
pub fn equality(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let c = Case::parse(case);
    let (a, b) = c.src.split_once('\0').expect("two sources");
    let op = c.operator(0);
    let (ta, tb) = (Text::new(a), Text::new(b));
    let (wa, wb) = match (ta.token(0, true, !op), tb.token(0, true, !op)) { (Ok(x), Ok(y)) => (x.0.kind, y.0.kind), _ => return Ok(()) };
    acc.states += 2;
    acc.transitions += 1;
    let want = match (&wa, &wb) {
        (Kind::Number(x, _), Kind::Number(y, _)) => x == y,
        (Kind::Str(x, _), Kind::Str(y, _)) => x == y,
        (Kind::RegExp(p, f), Kind::RegExp(q, g)) => {
            let sort = |s: &str| { let mut v: Vec<char> = s.chars().collect(); v.sort(); v };
            p == q && sort(f) == sort(g)
        }
        (x, y) => x == y,
    };
    let r = guarded(|| {
        let x = Lexer::new(a.chars()).read_token(op);
        let y = Lexer::new(b.chars()).read_token(op);
        match (x, y) {
            (Ok(x), Ok(y)) => Some((x.value == y.value, y.value == x.value, x.value == x.value.clone(), x == y, x.location == y.location && x.newline == y.newline,
                format!("{:?}", x.value) == format!("{:?}", y.value), x.value.is_string())),
            _ => None,
        }
    });
    acc.outcome((want, std::mem::discriminant(&wa), std::mem::discriminant(&wb)));
    acc.sample(|| format!("{} == {}: {}", mc_core::escape(a.as_bytes()), mc_core::escape(b.as_bytes()), want));
    match r {
        Ok(Some((ab, ba, aa, whole, places, shown, string))) => {
            if !aa { return fail("reflexive", format!("{:?} differs from its own copy", wa)); }
            if ab != ba { return fail("symmetric", format!("{:?} and {:?}: equality is not symmetric", wa, wb)); }
            if ab != want { return fail("equality", format!("{:?} == {:?} is {}, expected {}", wa, wb, ab, want)); }
            if whole != (want && places) { return fail("token", format!("tokens of {:?} and {:?} (same place: {}) compare as {}", wa, wb, places, whole)); }
            if shown != want { return fail("debug", format!("{:?} and {:?} are {}, but their debug texts are {}", wa, wb, if want { "equal" } else { "different" }, if shown { "equal" } else { "different" })); }
            if string != matches!(wa, Kind::Str(..)) { return fail("kind", format!("{:?}: is_string gives {}", wa, string)); }
            Ok(())
        }
        _ => Ok(()),
    }
}

// L16 ------------------------------------------------------------------

/// `<goals>|<source>`: reading goes on after errors.  `i<order>|<source>\0<source>`:
/// two tokenizers take turns in the given order.
pub fn memory(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    acc.sample(|| mc_core::escape(case));
    let r = guarded(|| if case[0] == b'i' { interleave(case) } else { resume(case) });
    match r {
        Err(m) => fail("panic", m),
        Ok(Err(m)) => fail("memory", m),
        Ok(Ok((steps, out))) => { acc.states += steps + 1; acc.transitions += steps; acc.outcome(out); Ok(()) }
    }
}

/// The model's state is (place, at the start of a line); after an error the place
/// is the one that the tokenizer reports, which must lie between the last token
/// and the end, and not before the place reported earlier.
fn resume(case: &[u8]) -> Result<(u64, u64), String> {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let c = Case::parse(case);
    let text = Text::new(c.src);
    let mut l = Lexer::new(c.src.chars());
    let (mut at, mut start, mut steps, mut errs) = (0usize, true, 0u64, 0);
    let mut last: Option<(reflex::Tok, joker::token::Token)> = None;
    // Errors in a row that did not move the tokenizer on, and, in short texts, errors.
    let (long, mut stuck) = (c.src.len() > 100, 0);
    while errs < 4 || long && stuck < 4 {
        let op = c.operator(steps as usize);
        let seen = errs;
        let here = |m: String| format!("request {} (after {} errors): {}", steps + 1, seen, m);
        // Looking ahead first makes no difference (every other request).
        let got = if steps % 2 == 1 { match l.peek_token(op) { Ok(_) => Ok(l.reread_token()), Err(e) => Err(e) } } else { l.read_token(op) };
        match (text.token(at, start, !op), got) {
            (Ok((w, j)), Ok(g)) => {
                let t = canon::tok(&g);
                if w != t { return Err(here(format!("expected {}, got {}", show(&Item::Tok(&w)), show(&Item::Tok(&t))))); }
                if canon::pos(l.posn()) != w.end { return Err(here(format!("position {} after a token that ends at {}", show_pos(canon::pos(l.posn())), show_pos(w.end)))); }
                (w.start.offset, errs > 0).hash(&mut h);
                at = j;
                start = false;
                let eof = w.kind == Kind::Eof;
                last = Some((w, g));
                if eof { return Ok((steps + 1, h.finish())); }
            }
            (Err(w), Err(g)) => {
                let g = canon::err(&g);
                if w != g { return Err(here(format!("expected error {:?}, got {:?}", w, g))); }
                let p = canon::pos(l.posn());
                let o = p.offset as usize;
                if o < at || o > text.chars.len() || text.pos(o) != p { return Err(here(format!("position {} after the error, the last token or error was at {}", show_pos(p), at))); }
                w.hash(&mut h);
                stuck = if o == at { stuck + 1 } else { 0 };
                at = o;
                start = false;
                errs += 1;
                // The token before the error can still be put back.
                if let Some((w, g)) = last.take() {
                    l.unread_token(g);
                    let t = l.read_token(op).map(|t| canon::tok(&t)).map_err(|e| canon::err(&e));
                    if t.as_ref() != Ok(&w) { return Err(here(format!("put back {}, got {:?}", show(&Item::Tok(&w)), t))); }
                    if canon::pos(l.posn()) != p { return Err(here("putting a token back moves the tokenizer".to_string())); }
                }
            }
            (w, g) => return Err(here(format!("expected {:?}, got {:?}", w.map(|w| w.0), g))),
        }
        steps += 1;
    }
    Ok((steps, h.finish()))
}

fn interleave(case: &[u8]) -> Result<(u64, u64), String> {
    let c = Case::parse(case);
    let (a, b) = c.src.split_once('\0').expect("two sources");
    let texts = [Text::new(a), Text::new(b)];
    let mut ls = [Lexer::new(a.chars()), Lexer::new(b.chars())];
    let mut st = [(0usize, true), (0usize, true)];
    let mut steps = 0;
    for &o in &c.modes[1..] {
        let (k, op) = ((o.to_ascii_lowercase() - b'a') as usize, o.is_ascii_uppercase());
        let here = |m: String| format!("step {} (tokenizer {}): {}", steps + 1, k + 1, m);
        match (texts[k].token(st[k].0, st[k].1, !op), ls[k].read_token(op)) {
            (Ok((w, j)), Ok(g)) => {
                let t = canon::tok(&g);
                if w != t { return Err(here(format!("expected {}, got {}", show(&Item::Tok(&w)), show(&Item::Tok(&t))))); }
                st[k] = (j, false);
            }
            (Err(w), Err(g)) => {
                let g = canon::err(&g);
                if w != g { return Err(here(format!("expected error {:?}, got {:?}", w, g))); }
                st[k] = (ls[k].posn().offset as usize, false);
            }
            (w, g) => return Err(here(format!("expected {:?}, got {:?}", w.map(|w| w.0), g))),
        }
        steps += 1;
    }
    Ok((steps, st[0].0 as u64 * 1000 + st[1].0 as u64))
}
