//! L14 messages of lexical errors, L15 locations.
use joker::error::Error;
use joker::token::TokenData;
use joker::track::*;
use joker::word::Reserved;
use mc_core::{guarded, Acc, Fail, Run};
use std::error::Error as _;

type Check = Result<(), Fail>;

// ---------------------------------------------------------------- L14

const KINDS: &[(&str, &str)] = &[
    // kind, description
    ("IncompleteWordEscape", "incomplete word escape"), ("UnterminatedComment", "unterminated block comment"), ("UnterminatedRegExp", "unterminated regexp literal"),
    ("MissingExponent", "missing exponent"), ("UnterminatedString", "unterminated string"), ("MissingBinaryDigits", "missing binary digits"),
    ("MissingOctalDigits", "missing octal digits"), ("MissingHexDigits", "missing hex digits"), ("IllegalChar", "illegal character"), ("InvalidDigit", "invalid digit"),
    ("IllegalUnicode", "illegal code unit"), ("IdAfterNumber", "identifier starts immediately after numeric literal"),
    ("DigitAfterNumber", "numeric literal starts immediately after previous numeric literal"), ("ReservedWordWithEscapes", "reserved word with escapes"),
];
const WORDS: &[Reserved] = { use Reserved::*; &[
    Null, True, False, Break, Case, Catch, Class, Const, Continue, Debugger, Default, Delete, Do, Else, Export, Extends, Finally, For, Function, If, Import, In,
    Instanceof, New, Return, Super, Switch, This, Throw, Try, Typeof, Var, Void, While, With, Enum,
] };

/// Case: kind number, `|`, detail (a number).  Detail 0x110000 stands for the end of input.
pub fn message(case: &[u8], acc: &mut Acc) -> Check {
    let s = std::str::from_utf8(case).unwrap();
    let (k, d) = s.split_once('|').unwrap();
    let (k, d): (usize, u32) = (k.parse().unwrap(), d.parse().unwrap());
    let cho = char::from_u32(d);
    let ch = cho.unwrap_or('?');
    let (e, detail) = match k {
        0 => (Error::IncompleteWordEscape(cho), String::new()),
        1 => (Error::UnterminatedComment, String::new()),
        2 => (Error::UnterminatedRegExp(cho), String::new()),
        3 => (Error::MissingExponent(cho), String::new()),
        4 => (Error::UnterminatedString(cho), String::new()),
        5 => (Error::MissingBinaryDigits, String::new()),
        6 => (Error::MissingOctalDigits, String::new()),
        7 => (Error::MissingHexDigits, String::new()),
        8 => (Error::IllegalChar(ch), format!(": {:?}", ch)),
        9 => (Error::InvalidDigit(ch), format!(": {:?}", ch)),
        10 => (Error::IllegalUnicode(d), format!(": \\u{{{}}}", hex4(d))),
        11 => (Error::IdAfterNumber(ch), String::new()),
        12 => (Error::DigitAfterNumber(ch), String::new()),
        _ => {
            let w = WORDS[d as usize];
            let name = crate::canon::reserved(w);
            (Error::ReservedWordWithEscapes(w), format!(": {}{}", name[..1].to_uppercase(), &name[1..]))
        }
    };
    let want = format!("{}{}", KINDS[k].1, detail);
    acc.states += 1;
    acc.transitions += 1;
    let r = guarded(|| (e.to_string(), {
        #[allow(deprecated)]
        e.description().to_string()
    }, e == e.clone(), format!("{:?}", e)));
    let (shown, desc, same, debug) = match r { Ok(x) => x, Err(p) => return Err(Fail::new("panic", format!("{:?}: {}", KINDS[k].0, p))) };
    acc.sample(|| format!("{} -> {}", debug, shown));
    acc.outcome((&shown, &debug));
    if shown != want { return Err(Fail::new(KINDS[k].0, format!("message {:?}, expected {:?}", shown, want))); }
    if desc != KINDS[k].1 { return Err(Fail::new(KINDS[k].0, format!("description {:?}, expected {:?}", desc, KINDS[k].1))); }
    if !same { return Err(Fail::new("equality", format!("{:?} differs from its copy", KINDS[k].0))); }
    if !debug.starts_with(KINDS[k].0) { return Err(Fail::new("kind", format!("{} shows as {}", KINDS[k].0, debug))); }
    Ok(())
}
/// At least four lower-case hexadecimal digits.
fn hex4(mut n: u32) -> String {
    let mut v = vec![];
    while n > 0 || v.len() < 4 { v.insert(0, b"0123456789abcdef"[(n & 15) as usize]); n >>= 4; }
    String::from_utf8(v).unwrap()
}

pub fn messages(run: &Run) {
    let chunk = 4096;
    run.par(0x110000 / chunk, |job, acc| {
        for c in job * chunk..(job + 1) * chunk {
            if char::from_u32(c as u32).is_some() { for k in [0, 2, 3, 4, 8, 9, 11, 12] { run.case(format!("{}|{}", k, c).as_bytes(), acc); } }
            run.case(format!("10|{}", c).as_bytes(), acc);
        }
    });
    run.par(1, |_, acc| {
        for k in 0..13 { run.case(format!("{}|{}", k, 0x110000).as_bytes(), acc); }
        for w in 0..WORDS.len() { run.case(format!("13|{}", w).as_bytes(), acc); }
        for b in 0..32 { for d in [0u32, 1, 2] { run.case(format!("10|{}", (1u32 << b).wrapping_sub(1).wrapping_add(d)).as_bytes(), acc); } }
        run.case(format!("10|{}", u32::MAX).as_bytes(), acc);
    });
    run.note("error kinds", KINDS.len() as u64);
    run.note("characters", 0x10f800);
}

// ---------------------------------------------------------------- L15

/// Case: letters.  `-` no location, otherwise two letters for start and end.
fn places(s: &str) -> Vec<Option<Span>> {
    let mut v = vec![];
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '-' { v.push(None); continue; }
        let d = it.next().unwrap();
        v.push(Some(Span { start: place(c), end: place(d) }));
    }
    v
}
fn place(c: char) -> Posn {
    let n = c as u32 - 'a' as u32;
    Posn { offset: n * 7, line: n / 4, column: n % 4 * 300 }
}
struct Spot(Option<Span>);
impl TrackingRef for Spot { fn tracking_ref(&self) -> &Option<Span> { &self.0 } }

pub fn location(case: &[u8], acc: &mut Acc) -> Check {
    let s = std::str::from_utf8(case).unwrap();
    if let Some(src) = s.strip_prefix('=') { return literal(src, acc); }
    let v = places(s);
    acc.states += v.len() as u64 + 1;
    acc.transitions += v.len() as u64;
    acc.sample(|| format!("{} -> {:?}", s, v));
    let r = guarded(|| {
        // Combination.
        if v.len() == 2 {
            let (a, b) = (v[0], v[1]);
            let want = match (a, b) { (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }), _ => None };
            let (sa, sb) = (Spot(a), Spot(b));
            for (how, got) in [("span", span(&a, &b)), ("through references", span(&&&a, &&b)), ("through nodes", span(&sa, &&sb)), ("mixed", span(&a, &sb))] {
                if got != want { return Err(("span", format!("{}: {:?} and {:?} give {:?}", how, a, b, got))); }
            }
            if *(&sa).tracking_ref() != a || *a.tracking_ref() != a { return Err(("ref", format!("{:?} is tracked as {:?}", a, (&sa).tracking_ref()))); }
            if (a == b) != (a.map(|a| key(&a)) == b.map(|b| key(&b))) { return Err(("eq", format!("{:?} == {:?} is {}", a, b, a == b))); }
            let mut m = a;
            *m.tracking_mut() = b;
            if m != b { return Err(("mut", format!("{:?} assigned {:?}", m, b))); }
        }
        // Rendering.
        for x in v.iter().flatten() {
            let want = format!("{}:{}..{}:{}", x.start.line + 1, x.start.column + 1, x.end.line + 1, x.end.column + 1);
            if format!("{:?}", x) != want { return Err(("debug", format!("{:?}, expected {}", x, want))); }
        }
        // Erasure, through every container and twice.
        let mut plain = v.clone();
        plain.untrack();
        if plain.len() != v.len() || plain.iter().any(|x| x.is_some()) { return Err(("list", format!("{:?} erased to {:?}", v, plain))); }
        plain.untrack();
        if plain.len() != v.len() || plain.iter().any(|x| x.is_some()) { return Err(("twice", format!("{:?} erased twice to {:?}", v, plain))); }
        let mut boxed: Vec<Box<Option<Span>>> = v.iter().map(|x| Box::new(*x)).collect();
        boxed.untrack();
        if boxed.len() != v.len() || boxed.iter().any(|x| x.is_some()) { return Err(("box", format!("{:?} erased to {:?}", v, boxed))); }
        let mut nested: Vec<Option<Box<Vec<Option<Span>>>>> = (0..=v.len()).map(|i| if i % 3 == 1 { None } else { Some(Box::new(v[..i].to_vec())) }).collect();
        let shape: Vec<Option<usize>> = nested.iter().map(|x| x.as_ref().map(|x| x.len())).collect();
        let mut outer = Some(nested.clone());
        nested.untrack();
        outer.untrack();
        if outer.as_ref() != Some(&nested) { return Err(("option", format!("{:?} and {:?}", nested, outer))); }
        if nested.iter().map(|x| x.as_ref().map(|x| x.len())).collect::<Vec<_>>() != shape { return Err(("shape", format!("{:?}", nested))); }
        if nested.iter().flatten().any(|x| x.iter().any(|y| y.is_some())) { return Err(("nested", format!("{:?} remains", nested))); }
        for mut flag in [true, false] { let before = flag; flag.untrack(); if flag != before { return Err(("flag", format!("{} became {}", before, flag))); } }
        let mut none: Option<Vec<Option<Span>>> = None;
        none.untrack();
        if none.is_some() { return Err(("none", format!("{:?}", none))); }
        Ok(())
    });
    acc.outcome(s);
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err((k, m))) => Err(Fail::new(k, m)),
        Err(p) => Err(Fail::new("panic", p)),
    }
}
fn key(s: &Span) -> [u32; 6] { [s.start.offset, s.start.line, s.start.column, s.end.offset, s.end.line, s.end.column] }

/// A literal has no location to erase: erasing it changes nothing.
fn literal(src: &str, acc: &mut Acc) -> Check {
    acc.states += 2;
    acc.transitions += 1;
    let r = guarded(|| {
        let t = match joker::Lexer::new(src.chars()).read_token(false) { Ok(t) => t, Err(_) => return None };
        let (before, after) = match t.value {
            TokenData::Number(ref l) => { let mut m = l.clone(); m.untrack(); (format!("{:?} {:?}", l.value.to_bits(), l.source), format!("{:?} {:?}", m.value.to_bits(), m.source)) }
            TokenData::String(ref l) => { let mut m = l.clone(); m.untrack(); (format!("{:?} {:?}", l.value, l.source), format!("{:?} {:?}", m.value, m.source)) }
            TokenData::RegExp(ref l) => { let mut m = l.clone(); m.untrack(); (format!("{:?} {:?}", l.pattern, l.flags), format!("{:?} {:?}", m.pattern, m.flags)) }
            _ => return None,
        };
        Some((before, after))
    });
    acc.outcome(src);
    match r {
        Ok(Some((a, b))) if a != b => Err(Fail::new("literal", format!("{:?}: {} became {}", src, a, b))),
        Ok(_) => Ok(()),
        Err(p) => Err(Fail::new("panic", p)),
    }
}

pub fn locations(run: &Run) {
    let lits = crate::spaces::lexemes();
    run.par(lits.len(), |i, acc| run.case(format!("={}", lits[i]).as_bytes(), acc));
    // Lists of many lengths, with a gap at every distance.
    let mut sizes: Vec<usize> = (8..run.bound(70, 140)).collect();
    for k in 7..=run.bound(12, 16) { for d in -1..=1 { sizes.push(((1i64 << k) + d) as usize); } }
    run.note("longest list", *sizes.iter().max().unwrap() as u64);
    run.par(sizes.len(), |i, acc| for gap in [2, 5, 9, sizes[i] + 1] {
        let s: String = (0..sizes[i]).map(|k| if k % gap == gap - 1 { "-" } else { "bf" }).collect();
        run.case(s.as_bytes(), acc);
    });
    // Every pair of locations over a set of positions, and every list up to a length.
    let m = run.bound(10, 16) as u8;
    let mut all: Vec<String> = vec!["-".into()];
    for a in 0..m { for b in 0..m { all.push(format!("{}{}", (b'a' + a) as char, (b'a' + b) as char)); } }
    run.par(all.len(), |i, acc| for b in &all { run.case(format!("{}{}", all[i], b).as_bytes(), acc); });
    let few: &[&str] = &["-", "aa", "ab", "bf"];
    run.strings(few, 0, run.bound(7, 9), |ix, acc| { let s: String = ix.iter().map(|&i| few[i]).collect(); run.case(s.as_bytes(), acc); });
    run.note("positions", m as u64);
    run.note("list length", run.bound(7, 9) as u64);
}
