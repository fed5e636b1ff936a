//! The enumerated spaces.
use crate::exec::{each_modes, make};
use mc_core::{Acc, Run};
use reflex::{CONTEXTUAL, PUNCTUATORS, RESERVED};

const LS: &str = "\u{2028}";
const PS: &str = "\u{2029}";

/// One source under every goal assignment that matters (at most `forks` slashes
/// explored), plus the assignment with operators expected throughout.
fn source(run: &Run, src: &str, forks: usize, acc: &mut Acc) {
    each_modes(src, b'0', forks, &mut |m| run.case(&make(m, src), acc));
    each_modes(src, b'1', 0, &mut |m| run.case(&make(m, src), acc));
}

/// Every string over an alphabet, wrapped.
fn all(run: &Run, name: &str, alphabet: &[&str], min: usize, max: usize, wraps: &[(&str, &str)]) {
    run.note(&format!("{}: max length over {} letters", name, alphabet.len()), max as u64);
    run.strings(alphabet, min, max, |idx, acc| {
        let mut s = String::new();
        for &i in idx { s.push_str(alphabet[i]); }
        for &(a, b) in wraps { source(run, &format!("{}{}{}", a, s, b), 4, acc); }
    });
}

/// Every Unicode scalar value in every context ("@" stands for the character).
fn code_points(run: &Run, contexts: &[&str]) {
    run.note("code points, in each of these contexts", contexts.len() as u64);
    let chunk = 4096;
    run.par(0x110000 / chunk, |job, acc| {
        if run.small() && job > 0 && job % 64 != 13 { return; }
        for c in job * chunk..(job + 1) * chunk {
            if let Some(c) = char::from_u32(c as u32) {
                for ctx in contexts {
                    // The goal assignment is the one of the context itself.
                    let mode = if ctx.starts_with('/') { "01" } else { "1" };
                    run.case(&make(mode, &ctx.replace('@', &c.to_string())), acc);
                }
            }
        }
    });
}

/// The decimal digits of odd * 5^k: with the point before the last k of them, a
/// dyadic fraction odd / 2^k exactly.
fn dyadic(odd: u64, k: usize) -> String {
    let mut d: Vec<u32> = vec![];
    let mut o = odd;
    while o > 0 { d.push((o % 10) as u32); o /= 10; }
    for _ in 0..k {
        let mut carry = 0;
        for x in d.iter_mut() { let y = *x * 5 + carry; *x = y % 10; carry = y / 10; }
        if carry > 0 { d.push(carry); }
    }
    while d.len() <= k { d.push(0); }
    let s: String = d.iter().rev().map(|&x| char::from(b'0' + x as u8)).collect();
    format!("{}.{}", &s[..s.len() - k], &s[s.len() - k..])
}

/// Every text of up to `max` ASCII characters (controls included), wrapped.
fn ascii(run: &Run, max: usize, wraps: &[(&str, &str)]) {
    let cs: Vec<String> = (0u8..128).map(|b| (b as char).to_string()).collect();
    let cs: Vec<&str> = cs.iter().map(|c| &c[..]).collect();
    all(run, "any ASCII", &cs, 0, max, wraps);
}

/// Code-point escapes of boundary values behind any number of zeros.
fn padded(run: &Run, wraps: &[(&str, &str)]) {
    let values: [u64; 22] = [0, 0x24, 0x30, 0x41, 0x61, 0x69, 0xe9, 0x200c, 0xd7ff, 0xd800, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1d4d0, 0x10ffff, 0x110000, 0xffffffff, 0x100000041, 0x1000000000000061, 0xfffffffffffffff];
    let mut ns: Vec<usize> = (0..run.bound(70, 200)).collect();
    ns.extend(sizes(run).into_iter().filter(|&n| n >= 200 && n < 5000));
    let mut v = vec![];
    for &n in &ns { for x in values { for &(a, b) in wraps {
        v.push(format!("{}\\u{{{}{:x}}}{}", a, "0".repeat(n), x, b));
        v.push(format!("{}\\u{{{}{:X}}}{}", a, "0".repeat(n), x, b));
    } } }
    list(run, "escapes with leading zeros", v, 2);
}

/// Texts of very many tokens (past what narrow counters hold), each ending in
/// tokens of every kind.
fn crowds(run: &Run) {
    let mut v = vec![];
    for n in [255usize, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000] {
        if run.small() && n > 5000 { continue; }
        for t in ["a ", "a\n", "if ", "1 ", "'x' ", "/**/;", "//\n=", "l\\u0065t ", "/a/g ", "++", "\n-->x\n", "a<!--\r\n"] {
            for e in ["\n'b\\n' 1.5 let l\\u0065t", "-->", "\n-->c\nif"] { v.push(format!("{}{}", t.repeat(n), e)); }
        }
    }
    run.note("texts of many tokens", v.len() as u64);
    run.par(v.len(), |i, acc| for m in ["0", "1"] { run.case(&make(m, &v[i]), acc); });
}

/// Sequences of escapes and characters that could be taken together.
fn units(run: &Run, max: usize, wraps: &[(&str, &str)]) {
    all(run, "escaped units", &["\\ud7ff", "\\ud83d", "\\udbff", "\\ud842", "\\udfb7", "\\udc00", "\\ue000", "\\u{d842}", "\\u{dfb7}", "\\u{20bb7}", "\\u0061", "\\u{69}", "\\u0030", "\\u200c", "\\u0301", "\\u005c", "\\x61", "u0062", "{63}", "a", "\u{20bb7}", "\u{301}"], 0, max, wraps);
}

/// Every code point's escapes.
fn code_point_escapes(run: &Run, contexts: &[&str], past: u32) {
    let chunk = 4096;
    let n = 0x110000 + past as usize;
    run.note("escaped code points (including values past U+10FFFF)", n as u64);
    run.par(n / chunk, |job, acc| {
        if run.small() && job > 0 && job % 64 != 13 { return; }
        for c in job * chunk..(job + 1) * chunk {
            for ctx in contexts {
                run.case(&make("1", &ctx.replace('@', &format!("\\u{{{:x}}}", c))), acc);
                if c < 0x10000 { run.case(&make("1", &ctx.replace('@', &format!("\\u{:04X}", c))), acc); }
            }
        }
    });
}

fn list(run: &Run, name: &str, sources: Vec<String>, forks: usize) {
    run.note(name, sources.len() as u64);
    let chunk = 64;
    run.par((sources.len() + chunk - 1) / chunk, |job, acc| {
        for s in sources.iter().skip(job * chunk).take(chunk) { source(run, s, forks, acc); }
    });
}

const NUMBERS: &[&str] = &["0", "7", "9", "10", "1.", ".5", "1.5", "1e3", "1.e3", ".5E-3", "0x1F", "0b101", "0o17", "017", "08", "09.5", "0Xa", "1e+2", "00", "123456789012345678901"];
const STRINGS: &[&str] = &["''", "\"\"", "'a'", "\"b\"", "'\"'", "'\\''", "'\\n'", "'\\\n'", "'\\x41'", "'\\u0041'", "'\\u{41}'", "'//'", "'/*'"];
const REGEXPS: &[&str] = &["/a/", "/a/g", "/[/]/", "/\\//", "/=/", "/a/gi", "/(?:)/u", "/[\\]]/", "/*/"];
const IDENTS: &[&str] = &["a", "$", "_", "a1", "x$", "\u{3c0}", "\u{10400}", "\\u0061", "\\u{61}b", "a\\u0062", "i", "instanceofx", "e", "n", "xA"];
const TRIVIA: &[&str] = &[" ", "\n", "\r", "\r\n", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", LS, PS, "/**/", "/*x*/", "/*\n*/", "/***/", "//x\n", "//\r\n", "<!--x\n", "\n-->x\n", " \n ", "/**/\n/**/"];

pub fn lexemes() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in [PUNCTUATORS, RESERVED, CONTEXTUAL, NUMBERS, STRINGS, REGEXPS, IDENTS] { v.extend(l.iter().map(|s| s.to_string())); }
    v
}

fn representatives() -> Vec<String> {
    let mut v: Vec<String> = PUNCTUATORS.iter().map(|s| s.to_string()).collect();
    v.extend(["in", "typeof", "let", "a", "\\u0061", "0", "1.", ".5", "0x1", "017", "1e3", "'a'", "\"\\n\"", "/a/g", "/[/]/"].iter().map(|s| s.to_string()));
    v
}

/// Every pair of lexemes with every separator in `seps`.
fn pairs(run: &Run, seps: &[&str]) {
    let ls = lexemes();
    run.note("lexeme pairs", (ls.len() * ls.len()) as u64);
    run.note("separators between them", seps.len() as u64);
    run.par(ls.len(), |i, acc| {
        for b in &ls { for s in seps { source(run, &format!("{}{}{}", ls[i], s, b), 4, acc); } }
    });
}

fn triples(run: &Run, seps: &[&str]) {
    let ls = representatives();
    run.note("lexeme triples", (ls.len() * ls.len() * ls.len()) as u64);
    run.note("separators in triples", seps.len() as u64);
    run.par(ls.len() * ls.len(), |i, acc| {
        for c in &ls { for s in seps { source(run, &format!("{}{}{}{}{}", ls[i / ls.len()], s, ls[i % ls.len()], s, c), 4, acc); } }
    });
}

/// Every sequence of up to `max` pieces, wrapped: a family's lexemes.
fn family(pieces: &[&str], max: usize, open: &str, close: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = v.len();
        for i in from..to { for p in pieces { let t = format!("{}{}", v[i], p); v.push(t); } }
        from = to;
    }
    v.into_iter().map(|b| format!("{}{}{}", open, b, close)).collect()
}

/// Every ordered pair of lexemes of one family in one text (what the first one
/// leaves behind must not reach the second), and the triples of the first few.
fn same_family(run: &Run, ls: &[String], few: usize, seps: &[&str]) {
    run.note("lexemes of the family in ordered pairs", ls.len() as u64);
    run.note("lexemes of the family in ordered triples", few as u64);
    run.par(ls.len(), |i, acc| {
        for b in ls { for s in seps { source(run, &format!("{}{}{}", ls[i], s, b), 2, acc); } }
        if i < few { for b in &ls[..few] { for c in &ls[..few] { source(run, &format!("{}{}{}{}{}", ls[i], seps[0], b, seps[0], c), 3, acc); } } }
    });
}

const PUNCT_CHARS: &[&str] = &["{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "="];
/// The characters that occur in some longer punctuator or comment opener.
const MUNCH: &[&str] = &[".", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "=", "a", "1", "\n"];

const NUMERIC: &[&str] = &["0", "1", "7", "8", "9", ".", "e", "E", "+", "-", "x", "X", "b", "B", "o", "O", "a", "f", "F", "_", "\\", " "];
const STRINGY: &[&str] = &["'", "\"", "\\", "u", "x", "{", "}", "0", "1", "3", "4", "7", "8", "a", "d", "F", "n", "\n", "\r", LS, "\u{1f600}"];
const REGEXPY: &[&str] = &["/", "\\", "[", "]", "a", "g", "*", "=", "(", "\n", "\r", LS, "u", "0", "{", "}", " "];
const COMMENTY: &[&str] = &["/", "*", "<", "!", "-", ">", "\n", "\r", " ", "a", LS];
const WORDY: &[&str] = &["\\", "u", "{", "}", "0", "6", "1", "a", "$", "\u{200d}", "\u{2118}", "\u{301}", " ", "D"];

// L01
pub fn totality(run: &Run) {
    all(run, "hostile", &["'", "\\", "/", "[", "]", "u", "{", "}", "x", "0", "9", ".", "e", "*", "<", "!", "-", ">", "\n", "\r", "a", "\u{1f600}"], 0, run.bound(4, 5), &[("", "")]);
    all(run, "escapes", &["\\", "u", "{", "}", "f", "0", "x", "'", "\n"], 0, run.bound(5, 7), &[("", ""), ("'", ""), ("a", ""), ("/", ""), ("'\\u{", ""), ("\\u{", "")]);
    all(run, "numeric", NUMERIC, 0, run.bound(3, 4), &[("", ""), ("0", ""), ("1.", ""), ("1e", "")]);
    code_points(run, &["@", "a@", "1@", "'@", "'\\@", "/@", "/[@", "/\\@", "/a/@", "\\@", "\\u@", "\\u{@", "0x@", "1e@", "/*@", "<!--@", "-->@", "@a"]);
    // Every truncation of every lexeme and of long ones, in both goals.
    let mut v = vec![];
    let mut ls = lexemes();
    for a in lexemes() { for t in TRIVIA { ls.push(format!("{}{}{}", a, t, "x")); } }
    ls.extend(long_lexemes(run));
    for l in &ls {
        let cs: Vec<char> = l.chars().collect();
        if cs.len() > 300 { for k in (0..20).chain(cs.len() - 20..=cs.len()) { v.push(cs[..k.min(cs.len())].iter().collect()); } }
        else { for k in 0..=cs.len() { v.push(cs[..k].iter().collect()); } }
    }
    list(run, "truncated lexemes", v, 3);
}

fn sizes(run: &Run) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=run.bound(300, 1100)).collect();
    for p in 1..=run.bound(16, 18) { for d in [-1i64, 0, 1] { v.push(((1i64 << p) + d) as usize); } }
    v.push(1000);
    v.push(9999);
    v.sort();
    v.dedup();
    v
}

/// Lexemes of many sizes around powers of two.
fn long_lexemes(run: &Run) -> Vec<String> {
    let mut v = vec![];
    for n in sizes(run) {
        let r = |s: &str| s.repeat(n);
        v.push(r("a"));
        v.push(r("\\u0061"));
        v.push(format!("'{}'", r("a")));
        v.push(format!("'{}'", r("\\n")));
        v.push(format!("'{}'", r("\\\n")));
        v.push(format!("/{}/g", r("a")));
        v.push(format!("/[{}]/g", r("/")));
        v.push(format!("/a/{}", r("g")));
        v.push(format!("/*{}*/a", r("*")));
        v.push(format!("/*{}*/a", r("\n")));
        v.push(format!("//{}\na", r("/")));
        v.push(format!("{}a", r(" ")));
        v.push(format!("{}a", r("\n")));
        v.push(format!("{}a", r("\r\n")));
        v.push(format!("{}a", r("\r")));
        v.push(format!("{}a", r(LS)));
        v.push(format!("a{}b", r("\n")));
        v.push(format!("a{}-->", r("\r\n")));
        v.push(format!("a{}b", r(PS)));
        v.push(format!("{}a", r("/**/")));
        v.push(format!("{}a", r("<!--\n")));
        v.push(format!("{}a", r("-->\n")));
        v.push(format!("\\u{{{}61}}", r("0")));
        v.push(format!("'\\u{{{}61}}'", r("0")));
        v.push(format!("'\\u{{{}}}'", r("f")));
        v.push(format!("\\u{{1{}}}", r("0")));
        if n <= 5000 {
            v.push(r("1"));
            v.push(format!("0x{}", r("f")));
            v.push(format!("0b{}", r("1")));
            v.push(format!("0{}", r("7")));
            v.push(format!("1e{}", r("1")));
            v.push(format!("1.{}", r("3")));
            v.push(format!("0.{}1", r("0")));
            v.push(r("a "));
            v.push(r("[;"));
            v.push(r("'' "));
        }
    }
    v
}

// L02
pub fn classes(run: &Run) {
    all(run, "punctuation", PUNCT_CHARS, 0, run.bound(3, 4), &[("", ""), ("a", "b"), ("1", "1"), ("\n", "")]);
    all(run, "maximal munch", MUNCH, 4, run.bound(5, 6), &[("", "")]);
    pairs(run, &["", " ", "\n", "/**/"]);
    triples(run, if run.quick() { &[""] } else { &["", " ", "\n", "/*\n*/"] });
    code_points(run, &["@", "a@a", "1@", ".@", "'@'"]);
    ascii(run, 3, &[("", "")]);
    units(run, run.bound(2, 3), &[("", ""), ("a", ";"), ("'", "'"), ("/", "/")]);
    list(run, "lexemes after many tokens", (1..run.bound(300, 3000)).map(|n| format!("{} 'x' >>>= if", "a+1;".repeat(n))).collect(), 0);
    list(run, "long lexemes", long_lexemes(run), 0);
    crowds(run);
}

// L03
pub fn positions(run: &Run) {
    all(run, "lines", &["a", " ", "\n", "\r", LS, "\u{1f600}", "'", "\\", "/", "*", ";"], 0, run.bound(5, 7), &[("", "")]);
    all(run, "lines between tokens", &["\n", "\r", LS, PS, " ", "\t", "\u{85}", "/*", "*/", "//", "x", "\u{b}"], 0, run.bound(4, 6), &[("a", ">>>=b"), ("'\\", "'=="), ("/*", "*/0x1F")]);
    pairs(run, TRIVIA);
    code_points(run, &["@ a", "'@' a", "/*@*/ a", "//@\na", "/@/ a", "b@a"]);
    units(run, run.bound(2, 3), &[("", " a"), ("'", "' a"), ("/a/", " a")]);
    ascii(run, 2, &[("", "a"), ("'\\", "' a"), ("/*", "*/ a"), ("1", " a")]);
    crowds(run);
    list(run, "long lexemes", long_lexemes(run).into_iter().flat_map(|l| vec![format!("{} === b", l), format!("{}\n=== b", l)]).collect(), 1);
}

// L04
pub fn newlines(run: &Run) {
    all(run, "trivia between tokens", &["\n", "\r", LS, PS, " ", "/*", "*/", "//", "a", "+", "<!--", "-->", "'\\", "'"], 0, run.bound(4, 6), &[("a", "b"), ("", "")]);
    all(run, "trivia sequences", TRIVIA, 0, run.bound(3, 4), &[("a", ";"), ("", "a"), (")", "")]);
    pairs(run, TRIVIA);
    code_points(run, &["a@b", "/*@*/b", "a//@b\nc", "<!--@b", "'@' b", "'\\@' b", "/[@]/ b", "@"]);
    ascii(run, 2, &[("a", "b"), ("a/*", "*/b"), ("a//", " b"), ("'\\", "' b")]);
    crowds(run);
    list(run, "long lexemes", long_lexemes(run).into_iter().flat_map(|l| vec![format!("{} b", l), format!("{}\nb", l)]).collect(), 0);
    let mut v = vec![];
    for n in sizes(run) {
        if n > 5000 { continue; }
        for t in [" ", "\n", "\r\n", "/*\n*/", "//\n", "/**/", "\u{feff}", "\t"] {
            v.push(format!("a{}\nb", t.repeat(n)));
            v.push(format!("a\n{}b", t.repeat(n)));
            v.push(format!("a{}b", t.repeat(n)));
            v.push(format!("a/*{}*/b", t.repeat(n).replace("*/", "*")));
            v.push(format!("a/*{}\n*/b", t.repeat(n).replace("*/", "*")));
        }
    }
    list(run, "long trivia", v, 0);
}

// L05
pub fn numbers(run: &Run) {
    all(run, "numeric", NUMERIC, 0, run.bound(4, 5), &[("", "")]);
    all(run, "numeric tails", NUMERIC, 0, run.bound(3, 4), &[("0x", ""), ("0", ";"), ("1.5", ""), ("1e1", " "), ("08", "")]);
    // Every pattern of the last bits of a literal of 53 to 57 (thorough: 60)
    // significant bits, in binary, octal and hexadecimal, with further digits.
    let mut v = vec![];
    for bits in 52..=run.bound(57, 60) as u32 {
        for low in 0..1u64 << 9 {
            for fill in [0u64, (1 << 43) - 1] {
                let n = (1u64 << (bits - 1)) | ((fill << 9) & ((1u64 << (bits - 1)) - 1)) | low;
                for tail in ["", "0", "1", "00", "001", "0000000000000", "0000000000001"] {
                    v.push(format!("0x{:x}{}", n, tail));
                    v.push(format!("0X{:X}{}", n, tail));
                    v.push(format!("0o{:o}{}", n, tail));
                    v.push(format!("0{:o}{}", n, tail));
                    v.push(format!("0b{:b}{}", n, tail));
                    if tail.is_empty() { v.push(format!("{}", n)); v.push(format!("{}.", n)); v.push(format!("{}e3", n)); }
                }
            }
        }
    }
    // Near the overflow and underflow boundaries.
    for n in 1..=run.bound(270, 600) {
        for d in ["1", "7", "f", "8"] {
            v.push(format!("0x{}", d.repeat(n)));
            v.push(format!("0x{}{}", d, "0".repeat(n)));
            v.push(format!("0x{}{}1", d, "0".repeat(n)));
            v.push(format!("0x{}{}", "0".repeat(n), d));
        }
        for (p, d) in [("0b", "1"), ("0o", "7"), ("0", "7"), ("0B", "10"), ("0O", "4")] {
            v.push(format!("{}{}", p, d.repeat(n)));
            v.push(format!("{}{}{}", p, d, "0".repeat(n)));
        }
        v.push(format!("0xfffffffffffff{}", "f".repeat(n)));
        v.push(format!("0xfffffffffffff8{}", "0".repeat(n)));
        v.push(format!("0xfffffffffffff7{}", "f".repeat(n)));
    }
    for e in 0..=run.bound(400, 5000) {
        for m in ["1", "1.", ".1", "9.5", "17976931348623157", "2.2250738585072014", "4.94", "0", "08", "9"] {
            for x in ["e", "E", "e+", "e-", "E-", "e0", "e-0"] { v.push(format!("{}{}{}", m, x, e)); }
        }
    }
    for i in 0..run.bound(20000, 200000) { v.push(format!("{}", i)); v.push(format!("0{}", i)); v.push(format!("{}.{}", i % 100, i)); v.push(format!("0x{:x}", i)); }
    for n in sizes(run) { if n <= 4097 { for d in ["1", "9", "0", "12345678901234567890"] {
        v.push(d.repeat(n)); v.push(format!("0.{}1", d.repeat(n))); v.push(format!("1e{}", d.repeat(n))); v.push(format!("1{}e-{}", "0".repeat(n), n)); v.push(format!(".{}", d.repeat(n)));
    } } }
    // Exponents with leading zeros, and beyond every integer type; leading and trailing zeros.
    let mut ns: Vec<usize> = (0..run.bound(40, 200)).collect();
    ns.extend(sizes(run).into_iter().filter(|&n| n >= 40 && n <= 1100));
    for &n in &ns {
        let z = "0".repeat(n);
        for m in ["1", "15", "1.", ".5", "1.5", "0", "0.0", "08", "08.5", "123456789012345678901"] { for x in ["e", "E+", "e-"] { for e in ["0", "1", "7", "22", "23", "308", "309", "324"] {
            v.push(format!("{}{}{}{}", m, x, z, e));
        } } }
        for t in ["0", "1", "7", "8", "9", "8.5", "8e1", "9.e-1", "7.5", "7e1", "1x", "_"] { v.push(format!("{}{}", z, t)); v.push(format!("0{}{}", z, t)); }
        for (p, d) in [("0x", "1f"), ("0X", "F"), ("0b", "101"), ("0B", "2"), ("0o", "17"), ("0O", "8"), ("0o", "")] { v.push(format!("{}{}{}", p, z, d)); v.push(format!("{}{}{}{}", p, d, z, d)); }
        for d in ["1", "25", "125"] {
            v.push(format!("{}.{}{}", d, d, z)); v.push(format!(".{}{}{}", d, z, d)); v.push(format!("0.{}{}e{}", z, d, n)); v.push(format!(".{}{}E+00{}", z, d, n + 2)); v.push(format!("{}{}.e-{}", d, z, n)); v.push(format!("{}{}.{}e-{}", d, z, z, n + 1));
        }
    }
    // Halfway between two doubles, spelled exactly, and just above and below, however late the difference comes.
    let mut halves: Vec<String> = vec![];
    for odd in 0..run.bound(40, 300) as u64 { for k in [1075, 1074, 1073] { halves.push(dyadic(2 * odd + 1, k)); } }
    for k in (1..run.bound(120, 400)).chain([500, 700, 900, 1000]) { for m in [(1u64 << 53) + 1, (1 << 53) + 3, (1 << 54) - 1, (3 << 52) + 1] { halves.push(dyadic(m, k)); } }
    for m in ["9007199254740993.0", "36028797018963972.0", "9223372036854776832.0", "18446744073709553664.0"] { halves.push(m.to_string()); }
    run.note("halfway values spelled exactly", halves.len() as u64);
    for h in &halves {
        v.push(h.clone());
        for z in [0, 1, 20, 64, 100, 400, 800, 1200] { v.push(format!("{}{}1", h, "0".repeat(z))); v.push(format!("{}{}1e5", h, "0".repeat(z))); v.push(format!("{}e{}", h, z)); v.push(format!("{}{}1E-7", h, "0".repeat(z))); }
        let t = h.trim_end_matches('0');
        if let Some(c) = t.chars().last() { if c != '.' { v.push(format!("{}{}{}", &t[..t.len() - 1], (c as u8 - 1) as char, "9".repeat(30))); v.push(format!("{}{}", &t[..t.len() - 1], (c as u8 - 1) as char)); } }
    }
    for e in ["127", "128", "255", "256", "32767", "32768", "65535", "65536", "65537", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457"] {
        for m in ["0", "1", "0.0", "0.", "5e0".trim_end_matches("e0"), ".5", ".0", "00.5".trim_start_matches("0"), "1.5", "09"] { for x in ["e", "E", "e+", "E-"] { v.push(format!("{}{}{}", m, x, e)); } }
    }
    list(run, "boundary literals", v, 0);
    ascii(run, 2, &[("1", ""), ("0", ";"), ("0x", ""), ("1.5e", ""), ("08", "")]);
    // Mantissas times powers of ten, with the point at different places.
    let top = run.bound(100, 400);
    run.note("powers of ten, negative and positive, each with each mantissa", 2 * 345);
    run.note("mantissas: all up to", top as u64);
    let mut ms: Vec<u64> = (1..top as u64).collect();
    for k in 2..19 { let t = 10u64.pow(k); ms.extend([t - 1, t + 1, t / 3, t / 3 * 2 + 1, t / 8]); }
    for k in 50..64 { let t = 1u64 << k; ms.extend([t - 1, t, t + 1, t + (t >> 53), t + (t >> 53) + 1]); }
    let signs = ["e", "e+", "E-"];
    run.par(345, |e, acc| for m in &ms { for x in signs {
        run.case(&make("1", &format!("{}{}{}", m, x, e)), acc);
        let d = m.to_string();
        run.case(&make("1", &format!("{}.{}{}{}", &d[..1], &d[1..], x, e)), acc);
        run.case(&make("1", &format!(".{}{}{}", d, x, e)), acc);
        if e < 40 && x == "e" {
            let z = "0".repeat(e);
            run.case(&make("1", &format!("{}{}", m, z)), acc);
            run.case(&make("1", &format!("{}.{}", m, z)), acc);
            run.case(&make("1", &format!("0.{}{}", z, m)), acc);
            run.case(&make("1", &format!(".{}{}e{}", z, m, e)), acc);
            run.case(&make("1", &format!("{}{}e-{}", m, z, e)), acc);
            run.case(&make("1", &format!("{}.{}1", m, z)), acc);
            run.case(&make("1", &format!("{}.5{}", m, z)), acc);
            run.case(&make("1", &format!("{}.5{}1", m, z)), acc);
        }
    } });
    let ls: Vec<String> = NUMBERS.iter().map(|s| s.to_string()).chain(["0b0", "1e-3", "1e400", "1e-400", "0777", "0o777", "0b11111111", "0xffffffffffffffffff", "5e-324", "123.456e7", "9007199254740993", "00.5", "08e1", "0E0", "1E5", ".0"].iter().map(|s| s.to_string())).collect();
    same_family(run, &ls, 16, &[" ", ", ", "+"]);
    code_points(run, &["1@", "0x1@", ".5@", "1e5@", "017@", "0b@", "1.@", "0@"]);
}

// L06
pub fn strings(run: &Run) {
    all(run, "string bodies", STRINGY, 0, run.bound(4, 5), &[("'", "'"), ("\"", "\"")]);
    all(run, "escape bodies", &["0", "3", "4", "7", "8", "a", "F", "u", "x", "{", "}", "\\", "g"], 0, run.bound(4, 6), &[("'\\", "'"), ("'\\u", "'"), ("\"\\x", "\""), ("'\\u{", "'")]);
    code_points(run, &["'@'", "'a@b'", "'\\@'", "\"\\@a\"", "'\\0@'", "'\\x@'", "\"\\\\@\"", "'@"]);
    code_point_escapes(run, &["'@'", "\"a@b\""], 0x10000);
    ascii(run, 2, &[("'", "'"), ("'\\", "'"), ("\"a", "b\""), ("'\\u00", "'"), ("'\\x4", "'")]);
    padded(run, &[("'", "'"), ("\"a\\ud83d", "b\"")]);
    units(run, run.bound(3, 4), &[("'", "'")]);
    // Octal escapes, exhaustively to four characters, and all hex pairs.
    let mut v = vec![];
    for n in 0..4096 { v.push(format!("'\\{:o}'", n)); v.push(format!("'\\{:03o}'", n)); v.push(format!("'\\{:04o}'", n)); v.push(format!("'\\x{:02x}'", n)); v.push(format!("'\\x{:02X}a'", n)); v.push(format!("'\\{}'", n)); }
    // Surrogates next to anything.
    let units = ["\\ud7ff", "\\ud800", "\\udbff", "\\udc00", "\\udfff", "\\ue000", "\\uD83D", "\\uDE00", "\\u{d83d}", "\\u{de00}", "\\u{1f600}", "\\u{0D83D}", "a", "?", "\\\n", "\\\r\n", "\\x41", "\\0", "\u{1f600}", "\\n"];
    for a in units { for b in units { for c in units { for d in units {
        v.push(format!("'{}{}{}{}'", a, b, c, d));
    } } } }
    for n in sizes(run) { for s in ["a", "\\n", "\\x41", "\\u0041", "\\u{41}", "\u{1f600}", "\\\n", "\\\r\n", "\\0", "\\377", "\\ud83d\\ude00", "\\'"] { v.push(format!("'{}'", s.repeat(n.min(9000)))); } }
    list(run, "escapes", v, 0);
    let pieces = ["a", "?", "\\n", "\\x41", "\\0", "\\377", "\\ud83d", "\\ude00", "\\u{1f600}", "\u{1f600}", "\\\n"];
    let mut ls = family(&pieces, 2, "'", "'");
    ls.extend(family(&pieces, 1, "\"", "\""));
    same_family(run, &ls, 12, &[", ", "\n"]);
    if !run.quick() {
        // Every pair of UTF-16 surrogates.
        run.note("surrogate pairs", 1 << 20);
        run.par(1024, |h, acc| for l in 0..1024 { run.case(&make("1", &format!("'\\u{:04x}\\u{:04X}'", 0xd800 + h, 0xdc00 + l)), acc); });
    } else {
        run.note("surrogate pairs", 32 * 1024);
        run.par(1024, |h, acc| for l in [0, 1, 511, 512, 1022, 1023, h, 1023 - h] { run.case(&make("1", &format!("'\\u{:04x}\\u{:04X}'", 0xd800 + h, 0xdc00 + l)), acc);
            for (x, y) in [(0xd800 + h, 0xd800 + l), (0xdc00 + h, 0xdc00 + l), (0xdc00 + h, 0xd800 + l)] { run.case(&make("1", &format!("'\\u{:04x}\\u{:04X}'", x, y)), acc); } });
    }
}

// L07
pub fn regexps(run: &Run) {
    all(run, "regexp", REGEXPY, 0, run.bound(5, 6), &[("/", "")]);
    all(run, "regexp bodies", &["/", "\\", "[", "]", "a", "\n", "*", "("], 0, run.bound(5, 8), &[("/a", "/g"), ("x=/[", "]/;"), ("/(", "/ /")]);
    code_points(run, &["/@/", "/a@b/g", "/[@]/", "/\\@/", "/[\\@]/", "/a/@", "/a/g@", "/a/\\u{@}", "/@", "/[@"]);
    code_point_escapes(run, &["0;/a/@", "0;/a/g@"], 0);
    ascii(run, 3, &[("/", "/")]);
    ascii(run, 2, &[("/[", "]/ "), ("/(?", ")/g"), ("/a/", ""), ("/[^", "/]/g"), ("/a\\", "/g")]);
    all(run, "regexp syntax", &["[", "]", "^", "-", "\\", "/", "(", ")", "?", "<", "{", "}", "*", "|", "."], 0, run.bound(5, 6), &[("/", "/ g")]);
    padded(run, &[("/a/", ""), ("/a/g", "g")]);
    units(run, 2, &[("/a/", ""), ("/", "/")]);
    let mut v = vec![];
    for n in sizes(run) { for s in ["a", "\\/", "[/]", "[", "]", "(", "\u{1f600}", "\\["] { v.push(format!("/{}/g", s.repeat(n.min(9000)))); v.push(format!("/[{}]/g", s.repeat(n.min(9000)))); v.push(format!("/a{}", s.repeat(n.min(9000)))); } v.push(format!("/a/{}", "gim".repeat(n.min(9000)))); }
    list(run, "long regexps", v, 2);
    let mut ls = family(&["a", "[/]", "\\/", "[\\]]", "(", "=", "\u{1f600}"], 2, "/(", "/");
    ls.extend(family(&["g", "i", "\\u0067", "\u{3c0}"], 2, "/b/", ""));
    same_family(run, &ls, 10, &[", ", "\n"]);
    // Every flag string.
    all(run, "flags", &["g", "i", "m", "u", "y", "s", "$", "1", "\u{3c0}", "\\u0067"], 0, run.bound(4, 5), &[("/a/", ""), ("/a/", " in")]);
}

fn keywords() -> Vec<&'static str> { RESERVED.iter().chain(CONTEXTUAL).cloned().collect() }

// L08
pub fn words(run: &Run) {
    let ks = keywords();
    let mut v: Vec<String> = vec![];
    for k in &ks {
        let cs: Vec<char> = k.chars().collect();
        // Every per-character escaping in two spellings.
        for mask in 0..1u32 << cs.len() {
            for style in 0..3 {
                if mask == 0 && style > 0 { continue; }
                let mut s = String::new();
                for (i, c) in cs.iter().enumerate() {
                    if mask >> i & 1 == 0 { s.push(*c) } else {
                        match style { 0 => s += &format!("\\u{:04x}", *c as u32), 1 => s += &format!("\\u{{{:X}}}", *c as u32), _ => s += &format!("\\u{{00{:x}}}", *c as u32) }
                    }
                }
                v.push(s);
            }
        }
        // Every word within one edit, over an alphabet.
        let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789$_\u{200c}\u{200d}\u{301}\u{17f}\u{131}\u{212a}".chars().collect();
        for i in 0..=cs.len() {
            for &a in &alpha {
                let mut w = cs.clone(); w.insert(i, a); v.push(w.iter().collect());
                if i < cs.len() { let mut w = cs.clone(); w[i] = a; v.push(w.iter().collect()); }
            }
            if i < cs.len() { let mut w = cs.clone(); w.remove(i); v.push(w.iter().collect()); v.push(cs[..i].iter().collect()); }
            for j in i + 1..cs.len() { let mut w = cs.clone(); w.swap(i, j); v.push(w.iter().collect()); }
        }
        v.push(k.to_uppercase());
    }
    for a in &ks { for b in &ks { v.push(format!("{}{}", a, b)); v.push(format!("{} {}", a, b)); v.push(format!("{}_{}", a, b)); } }
    for n in sizes(run) { v.push("a".repeat(n)); v.push("in".repeat(n)); v.push("\u{3c0}".repeat(n)); v.push("\\u0061".repeat(n.min(9000))); v.push(format!("{}if", "a".repeat(n))); v.push(format!("if{}", "a".repeat(n))); v.push(format!("{} let if", "a ".repeat(n.min(9000)))); v.push(format!("l{}\\u{{{}65}}t", "", "0".repeat(n))); }
    v.retain(|s| !s.is_empty());
    list(run, "words near keywords", v, 0);
    let mut ls: Vec<String> = vec![];
    for k in ["if", "let", "in", "of", "a", "l", "lets", "fi", "yield", "enum", "\u{3c0}"] {
        ls.push(k.to_string());
        let c = k.chars().next().unwrap();
        ls.push(format!("\\u{:04x}{}", c as u32, &k[c.len_utf8()..]));
        ls.push(format!("\\u{{{:x}}}{}", c as u32, &k[c.len_utf8()..]));
        ls.push(format!("{}\\u0031", k));
        ls.push(format!("{}1", k));
    }
    same_family(run, &ls, 20, &[" ", "\n", "."]);
    // All words of up to four letters over the letters of the shortest keywords.
    all(run, "short words", &["i", "f", "n", "d", "o", "l", "e", "t", "s", "g"], 1, run.bound(5, 6), &[("", "")]);
    all(run, "word characters and escapes", WORDY, 0, run.bound(5, 6), &[("", "")]);
    all(run, "escape digits", &["0", "1", "6", "7", "a", "E", "g", "{", "}"], 0, run.bound(5, 7), &[("\\u", ""), ("a\\u", ""), ("\\u{", "}")]);
    code_points(run, &["@", "@a", "a@", "a@b", "if@", "@if"]);
    code_point_escapes(run, &["@", "a@", "@b", "i@", "if@"], 0x10000);
    ascii(run, 2, &[("", ""), ("a", "b"), ("\\u00", ""), ("i\\u{", "}f")]);
    padded(run, &[("", ""), ("a", "b"), ("\\ud842", "")]);
    units(run, run.bound(3, 4), &[("", ""), ("a", "")]);
}

// L09
pub fn trivia(run: &Run) {
    all(run, "comments", COMMENTY, 0, run.bound(6, 7), &[("", "")]);
    all(run, "comment delimiters", &["/*", "*/", "//", "<!--", "-->", "\n", "\r", " ", "a", LS, "-", "*", "/"], 0, run.bound(4, 6), &[("", ""), ("a", "b")]);
    all(run, "trivia", TRIVIA, 0, run.bound(3, 4), &[("", "a"), ("a", "-->b")]);
    code_points(run, &["@", "a@b", "/*@*/a", "//@a", "//@\na", "/*@", "<!--@a", "@-->a", "/*@*/-->a", "a@-->b", "/*\n@*/-->a", "\n@-->a", "//@", "\n@\na", "\r@\na", "\r\n@\r\na", " @ a", "/**/@//x\na", "\n@/**/\nb", "//x\n@\n/*\n*/a"]);
    ascii(run, 3, &[("/*", "*/a")]);
    ascii(run, 2, &[("//", "\na"), ("", "-->a\nb"), ("a<!", "a"), ("\n", "-->a"), ("a/*", "/a")]);
    units(run, 2, &[("/*", "*/a"), ("//", "\na")]);
    let mut v = vec![];
    for n in sizes(run) {
        for t in ["*", "/", "\n", "\r\n", " ", "-", "<!--", "-->", "**", "*\n"] {
            if n > 9000 && t.len() > 1 { continue; }
            let r = t.repeat(n);
            v.push(format!("/*{}*/a", r)); v.push(format!("//{}\na", r)); v.push(format!("/*{}", r)); v.push(format!("{}a", r)); v.push(format!("<!--{}a", r)); v.push(format!("/*{}*/-->x\na", r)); v.push(format!("a{}/**/-->x\n", r));
        }
    }
    list(run, "long trivia", v, 2);
}

// L10
pub fn histories(run: &Run) {
    let texts: &[&str] = &["a /b/ c\n d", "/1/\n/2/g\n/3/ / 4", "x", "", "a 1x b", "-->c\nb<!--q\n>>>=\n\n'\\\n'", "let if 0x", "a\n\n/*\n*/b/c"];
    let len = run.bound(6, 7);
    run.note("history length", len as u64);
    run.note("texts", texts.len() as u64);
    // Jobs: text x first two operations.
    let ops = b"pPrRsSuek";
    run.par(texts.len() * 81, |job, acc| {
        let t = texts[job / 81];
        let (a, b) = (ops[job / 9 % 9], ops[job % 9]);
        let mut h: Vec<u8> = vec![];
        grow(run, t, &mut h, len, (0, 0), &[a, b], acc);
    });
    // Every text of up to four (five) pieces, with every short history.
    let pieces = ["a", "\n", "-->", "<!--", "/b/", "1", "/*\n*/", "'"];
    let n = run.bound(4, 5);
    let len = run.bound(4, 5);
    run.note("pieces of text", n as u64);
    run.note("history length on them", len as u64);
    run.strings(&pieces, 1, n, |idx, acc| {
        let t: String = idx.iter().map(|&i| pieces[i]).collect::<Vec<_>>().join(if idx.len() % 2 == 0 { " " } else { "" });
        let mut h: Vec<u8> = vec![];
        grow_over(run, &t, &mut h, len, (0, 0), &[], b"pRru", acc);
        grow_over(run, &t, &mut h, len + 1, (0, 0), b"R", b"Ru", acc);
    });
    // Periodic histories: every short round of operations, over and over.
    let len = run.bound(5, 6);
    run.note("operations in a round", len as u64);
    let all: Vec<Vec<u8>> = rounds(len, b"pRrsue");
    run.note("rounds, each repeated 300 times", all.len() as u64);
    let pieces = ["a /b/ c\n d 'e\\n' ", "x\n", "-->c\nb<!--q\n>>>=\n\n", "let l\\u0065t 1.5 /*\n*/ "];
    run.par(all.len(), |i, acc| for t in pieces {
        let mut h = all[i].repeat(300);
        h.push(b'|');
        h.extend_from_slice(t.repeat(60).as_bytes());
        run.case(&h, acc);
    });
    let few = rounds(if run.small() { 2 } else { 4 }, b"pRue");
    run.note("rounds repeated 66000 times", few.len() as u64);
    run.par(few.len(), |i, acc| {
        let mut h = few[i].repeat(66000);
        h.push(b'|');
        h.extend_from_slice("a 1\n'b' ".repeat(10).as_bytes());
        run.case(&h, acc);
    });
    // Longer histories over the operations that move tokens between buffers.
    let len = run.bound(8, 10);
    run.note("history length over p R u e", len as u64);
    run.par(4 * 16, |job, acc| {
        let t = ["a /b/ c\n d", "/1/\n/2/g\n/3/ / 4", "a\n\n/*\n*/b/c", "let if 0x"][job / 16];
        let o = b"pRue";
        let mut h: Vec<u8> = vec![];
        grow_over(run, t, &mut h, len, (0, 0), &[o[job / 4 % 4], o[job % 4]], o, acc);
    });
}

fn grow(run: &Run, t: &str, h: &mut Vec<u8>, len: usize, st: (usize, usize), forced: &[u8], acc: &mut Acc) {
    grow_over(run, t, h, len, st, forced, b"pPrRsSuek", acc)
}

/// Every sequence of up to `len` operations that can be repeated for ever: it
/// keeps within the interface, and leaves as many tokens buffered and at least as
/// many held as it found (none).
fn rounds(len: usize, ops: &[u8]) -> Vec<Vec<u8>> {
    fn go(len: usize, ops: &[u8], h: &mut Vec<u8>, b: usize, n: usize, out: &mut Vec<Vec<u8>>) {
        if b == 0 && !h.is_empty() { out.push(h.clone()); }
        if h.len() == len { return; }
        for &o in ops {
            let next = match o {
                b'p' | b'P' => (b.max(1), n),
                b'r' | b'R' => (b.saturating_sub(1), n + 1),
                b's' | b'S' => (b.saturating_sub(1), n),
                b'u' if n > 0 && b < 2 => (b + 1, n - 1),
                b'e' if b > 0 => (b - 1, n + 1),
                b'k' if b > 0 => (b, n),
                _ => continue,
            };
            h.push(o);
            go(len, ops, h, next.0, next.1, out);
            h.pop();
        }
    }
    let mut out = vec![];
    go(len, ops, &mut vec![], 0, 0, &mut out);
    out
}

/// st = (buffered, held); an operation is enabled only where the interface allows it.
fn grow_over(run: &Run, t: &str, h: &mut Vec<u8>, len: usize, st: (usize, usize), forced: &[u8], ops: &[u8], acc: &mut Acc) {
    if h.len() == len {
        let mut c = h.clone();
        c.push(b'|');
        c.extend_from_slice(t.as_bytes());
        run.case(&c, acc);
        return;
    }
    for &o in ops {
        if h.len() < forced.len() && forced[h.len()] != o { continue; }
        let (b, n) = st;
        let next = match o {
            b'p' | b'P' => (b.max(1), n),
            b'r' | b'R' => (b.saturating_sub(1), n + 1),
            b's' | b'S' => (b.saturating_sub(1), n),
            b'u' if n > 0 && b < 2 => (b + 1, n - 1),
            b'e' if b > 0 => (b - 1, n + 1),
            b'k' if b > 0 => (b, n),
            _ => continue,
        };
        h.push(o);
        grow_over(run, t, h, len, next, forced, ops, acc);
        h.pop();
    }
}

// L11
pub fn lookahead(run: &Run) {
    all(run, "punctuation", MUNCH, 0, run.bound(5, 6), &[("", "aaaaaaaa")]);
    all(run, "comments", COMMENTY, 0, run.bound(5, 6), &[("", " bbbbbbbb")]);
    all(run, "numeric", NUMERIC, 0, run.bound(3, 4), &[("", " bbbbbbbb")]);
    pairs(run, &["", " ", "\n", "\r\n"]);
    code_points(run, &["@ aaaaaaaaaa", "a@aaaaaaaaaa", "'@' aaaaaaaaaa", "1@aaaaaaaaaa", "/*@*/aaaaaaaaaa"]);
    ascii(run, 3, &[("", " bbbbbbbbbb")]);
    units(run, run.bound(2, 3), &[("", " bbbbbbbbbb"), ("'", "' bbbbbbbbbb"), ("/a/", " bbbbbbbbbb")]);
    list(run, "long lexemes", long_lexemes(run).into_iter().map(|l| format!("{};bbbbbbbbbb", l)).collect(), 1);
}

// L12
pub fn errors(run: &Run) {
    let mut v = vec![];
    let alpha = ["", "'", "\"", "\\", "/", "u", "{", "}", "g", "9", "8", "2", "e", ".", "\n", LS, "\r", "*", "]", "[", "#", "@", "`", "\u{1f600}", "a", "\u{d7ff}", "_", "$"];
    let mut bases: Vec<String> = lexemes();
    bases.extend(["'\\u{10FFFF}'", "'\\x4G'", "'\\u00e9'", "\\u{1d4d0}", "/[a\\]b]c\\/d/gi", "/*a*b*/", "1.5e-10", "0x1fF", "0b1010", "0o755", "i\\u0066", "\\u{69}n", "a\\u{2118}", "'\\\r\n'", "/a\\"].iter().map(|s| s.to_string()));
    for b in &bases {
        let cs: Vec<char> = b.chars().collect();
        for i in 0..=cs.len() {
            let (l, r): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            for a in alpha {
                v.push(format!("{}{}", l, a));
                v.push(format!("{}{}{}", l, a, r));
                if i < cs.len() { v.push(format!("{}{}{}", l, a, cs[i + 1..].iter().collect::<String>())); }
                v.push(format!("{}{}{};", l, a, r));
                v.push(format!("b {}{}{}", l, a, r));
            }
        }
    }
    list(run, "mutated lexemes", v, 2);
    all(run, "numeric", NUMERIC, 0, run.bound(4, 5), &[("", "")]);
    all(run, "string", STRINGY, 0, run.bound(4, 5), &[("'", "")]);
    all(run, "regexp", REGEXPY, 0, run.bound(4, 5), &[("/", "")]);
    all(run, "word", WORDY, 0, run.bound(5, 6), &[("", "")]);
    all(run, "comment", &["/", "*", "\n", "a"], 0, run.bound(7, 9), &[("", ""), ("/*", "")]);
    code_points(run, &["@", "a@", "1@", "0x@", "0b@", "0o1@", "1e@", "1e+@", "'@", "'\\x@", "'\\u1@", "'\\u{@", "\\@", "\\u@", "\\u{1@", "a\\@", "/@", "/[@", "/\\@", "/*@"]);
    code_point_escapes(run, &["'@'", "@", "a@", "1@", "/@"], 0x1000);
    ascii(run, 3, &[("", "")]);
    ascii(run, 2, &[("'", ""), ("/", ""), ("'\\u", "'"), ("a\\u", ""), ("0x", ""), ("1e", ""), ("/*", "")]);
    padded(run, &[("", ""), ("'", "'"), ("a", ""), ("/a/", "")]);
    units(run, run.bound(2, 3), &[("", ""), ("'", ""), ("/a/", ""), ("1", "")]);
    // Reserved words with escapes name the word.
    let mut v = vec![];
    for k in RESERVED { for i in 0..k.len() { let c = k.as_bytes()[i]; v.push(format!("{}\\u{:04x}{}", &k[..i], c, &k[i + 1..])); v.push(format!(". {}\\u{{{:x}}}{} ", &k[..i], c, &k[i + 1..])); } }
    list(run, "escaped reserved words", v, 0);
}

// L13
pub fn equality(run: &Run) {
    let mut v = lexemes();
    v.extend(["\"a\"", "'\\x61'", "'\\u0061'", "'\\u{61}'", "'\\141'", "\"\\\na\"", "'b'", "''", "\"\\\n\"", "1", "1.0", "01", "0x1", "0b1", "0o1", "1e0", "10e-1", ".1e1", "1.0e+0", "1E0", "0.1", "1e400", "2e400", "0e5", "0.0", "/a/ig", "/a/gi", "/a/gg", "/a/", "/a/iig", "/a/igi", "/A/g", "/b/g", "/[a]/g", "/a/giu", "/a/uig",
        "l\\u0065t", "\\u006cet", "let", "b", "\\u0061", "\\u{61}", "A", "\u{e9}", "e\u{301}", "/(?:)/", "'/a/'", "''", "'1'", "'let'", "'if'", "\n1", " 1", "\n'a'", "-", "a", "\na"].iter().map(|s| s.to_string()));
    for k in keywords() { let c = k.chars().next().unwrap(); v.push(format!("\\u{:04x}{}", c as u32, &k[1..])); v.push(format!("{}\\u{{{:x}}}", &k[..k.len() - 1], k.as_bytes()[k.len() - 1])); v.push(format!("'{}'", k)); v.push(format!("/{}/", k)); }
    run.note("spellings", v.len() as u64);
    run.par(v.len(), |i, acc| for b in &v { for m in ["0", "1"] { run.case(&make(m, &format!("{}\0{}", v[i], b)), acc); } });
    // Numbers that lie close together, and long texts that differ in one place.
    let close = ["0", "5e-324", "1e-323", "0.1", "0.10000000000000001", "0.1000000000000000055511151231257827", "0.10000000000000002", "1.0000000000000002", "1.0000000000000004", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994",
        "0x20000000000001", "1e308", "1.0000000000000002e308", "1e309", "179769313486231570000e289", "4294967296", "4294967297", "1e16", "10000000000000002", "1e-16", "2e-16", "2.220446049250313e-16", "65536", "65537", "255", "256"];
    for a in close { run.par(1, |_, acc| for b in close { run.case(&make("1", &format!("{}\0{}", a, b)), acc); }); }
    let mut long: Vec<(String, String)> = vec![];
    for n in sizes(run) {
        if n == 0 || n > 5000 { continue; }
        for k in [0, 1, n / 2, n - 1] {
            let (a, b) = ("a".repeat(n), format!("{}b{}", "a".repeat(k.min(n - 1)), "a".repeat(n - 1 - k.min(n - 1))));
            for (o, c) in [("'", "'"), ("/", "/"), ("/x/", ""), ("", "")] {
                for (x, y) in [(&a, &b), (&b, &a), (&a, &a), (&b, &b)] { long.push((format!("{}{}{}", o, x, c), format!("{}{}{}", o, y, c))); }
                long.push((format!("{}{}{}", o, a, c), format!("{}{}a{}", o, a, c)));
            }
        }
    }
    run.note("pairs of long spellings", long.len() as u64);
    run.par(long.len(), |i, acc| for m in ["0", "1"] { run.case(&make(m, &format!("{}\0{}", long[i].0, long[i].1)), acc); });
    for alpha in [["g", "i", "m", "u"], ["a", "b", "c", "d"], ["g", "G", "i", "\u{17f}"]] {
        let fs = family(&alpha, run.bound(4, 5), "", "");
        run.note("flag strings", fs.len() as u64);
        run.par(fs.len(), |i, acc| for b in &fs { run.case(&make("0", &format!("/a/{}\0/a/{}", fs[i], b)), acc); });
    }
    // Short texts over characters that some folding, normalization or truncation identifies, in every role.
    let alike = ["a", "A", "b", "\u{e1}", "\u{161}", "\u{10461}", "a\u{301}", "s", "\u{17f}", "k", "\u{212a}", "0", "\u{660}", "$", "_", "\u{200c}"];
    let ls = family(&alike, run.bound(2, 2), "", "");
    run.note("texts of alike characters, in pairs, as strings, patterns, flags and names", ls.len() as u64);
    run.par(ls.len(), |i, acc| for b in &ls {
        for (o, c) in [("'", "'"), ("/(", ")/"), ("/x/", ""), ("x", "")] { run.case(&make("0", &format!("{}{}{}\0{}{}{}", o, ls[i], c, o, b, c)), acc); }
    });
    let odd = ["\\0", " ", "\\n", "\\r", "\\t", "\\x7f", "\u{a0}", "\u{feff}", "\u{2028}", "?", "\\ud800", "a", "\\\n", "\\'", "\\\\"];
    let ls = family(&odd, 2, "'", "'");
    run.note("strings of odd characters, in pairs", ls.len() as u64);
    run.par(ls.len(), |i, acc| for b in &ls { run.case(&make("0", &format!("{}\0{}", ls[i], b)), acc); });
}

/// Every lexeme and each of its neighbours (one character replaced, dropped or
/// doubled, two swapped, the inner part reversed) in one text, in both orders.
fn neighbours(run: &Run) {
    let mut ls = lexemes();
    ls.extend(["'abc'", "/abc/gi", "12345", "0xabc", "1.25e3", "name", "\\u0061bc", "'\\x41b'"].iter().map(|s| s.to_string()));
    ls.retain(|l| l.chars().count() > 1);
    let cs: Vec<char> = "abcdefghijklmnopqrstuvwxyz_01789'/.=\\\u{3c0}E".chars().collect();
    run.note("lexemes, each with each of its neighbours", ls.len() as u64);
    run.par(ls.len(), |i, acc| {
        let l: Vec<char> = ls[i].chars().collect();
        let mut ns: Vec<Vec<char>> = vec![];
        for k in 0..l.len() {
            for &c in &cs { let mut n = l.clone(); n[k] = c; ns.push(n); }
            let mut n = l.clone(); n.remove(k); ns.push(n);
            let mut n = l.clone(); n.insert(k, l[k]); ns.push(n);
            for j in 0..k { let mut n = l.clone(); n.swap(j, k); ns.push(n); }
        }
        let mut n = l.clone(); n.reverse(); ns.push(n);
        if l.len() > 3 { let mut n = l.clone(); n[1..l.len() - 1].reverse(); ns.push(n); }
        ns.sort(); ns.dedup();
        for n in ns {
            let n: String = n.into_iter().collect();
            for s in [format!("{} {} {}", ls[i], n, ls[i]), format!("{} {} {}", n, ls[i], n)] { source(run, &s, 2, acc); }
        }
    });
}

/// Texts that have no token at some point, each with what scanned it so far.
const BROKEN: &[&str] = &["'a", "'a\n", "'ab\\u{", "'\\u{110000}'", "'\\ud83d\\u{", "'\\x4", "\"b\\", "/a", "/[a", "/a\\", "/a\n", "/*", "0x", "0xg", "0b", "0b2", "0o", "0o9", "1e", "1e+", "1e!", "3in", "017a", "0x1g", "#", "@", "\\", "\\u", "\\u0", "\\u00", "\\u{", "\\u{61", "\\u0030", "a\\", "a\\u{2b}", "i\\u0066", "ab\\u002", "`", "\u{1f600}", "1.5e", "08.5e-", ".5e", "1\\u0061", "99999a", "'\\u{12", "/a/\\x", "/a/g\\", "\n#", " @"];

// L16
pub fn memory(run: &Run) {
    all(run, "hostile", &["'", "\\", "/", "u", "{", "x", "0", "e", "*", "\n", "a", "1", "#", "-", ">", "i"], 0, run.bound(5, 6), &[("", "")]);
    all(run, "escapes", &["\\", "u", "{", "}", "6", "1", "'", "\n"], 0, run.bound(6, 7), &[("", "'a'"), ("'", "'b'"), ("a", " a")]);
    // Every malformed text, then every lexeme; pairs of malformed texts; whole before malformed before whole.
    let ls = lexemes();
    run.note("malformed texts, each before each lexeme and around each other", BROKEN.len() as u64);
    let seps = ["", " ", "\n", "'", "\n-->", ";/"];
    run.par(BROKEN.len(), |i, acc| {
        for l in &ls { for s in seps { source(run, &format!("{}{}{}", BROKEN[i], s, l), 2, acc); source(run, &format!("{} {}{}{} {}", l, BROKEN[i], s, l, l), 2, acc); } }
        for b in BROKEN { for s in seps { for l in ["a", "'c'", "l\\u0065t let", "1 0x1", "if", "/a/g"] { source(run, &format!("{}{}{}{}{}", BROKEN[i], s, b, s, l), 2, acc); } } }
    });
    // A word, number or literal again, in another spelling or another role.
    let again = ["let", "l\\u0065t", "if", "i\\u0066", "\\u{61}", "a", "'a'", "'\\x61'", "\"a\"", "''", "1", "01", "0x1", "1.", "1e1", "10", "/a/", "/a/g", "/a/gi", "'let'", "'\\\n'", "1e", "'", "#", "0x10", "0o10", "0b10", "010", "1e10", "/10/", "'10'", "$10", "10.", ".10"];
    let n = run.bound(3, 4);
    run.note("sequences of spellings of the same thing: length", n as u64);
    let total = again.len().pow(n as u32);
    run.par(again.len(), |i, acc| for k in 0..total / again.len() {
        let mut s = again[i].to_string();
        let mut k = k;
        for _ in 1..n { s.push(' '); s.push_str(again[k % again.len()]); k /= again.len(); }
        source(run, &s, 2, acc);
    });
    // Pairs of lexemes of all families, whole tokens compared; triples of some.
    let mut rich = lexemes();
    rich.extend(family(&["a", "?", "\\n", "\\377", "\\ud83d", "\\ude00", "\\u{1f600}", "\u{1f600}", "\\\r\n"], 1, "'b", "'"));
    rich.extend(family(&["[/]", "\\/", "\u{1f600}"], 1, "/(", "/g"));
    rich.extend(["l\\u0065t", "\\u{69}fx", "0b11", "0o70", "1e400", "1e-9", "0xffffffffffffffffff", "08.5"].iter().map(|s| s.to_string()));
    run.note("lexemes in ordered pairs", rich.len() as u64);
    let seps = ["", " ", "\n", "/*\n*/", "\r\n-->x\n"];
    run.par(rich.len(), |i, acc| for b in &rich { for s in seps { source(run, &format!("{}{}{}", rich[i], s, b), 2, acc); } });
    let some: Vec<&str> = vec!["a", "if", "let", "l\\u0065t", "1", "0x1f", ".5", "'a\\ud83d'", "'b\\ude00'", "'\\\n'", "/b/g", "/[/]/", ".", "...", ">>>=", "--", "<", "!", ">", "+", "\u{3c0}", "017", "1e3", "/"];
    let seps = [" ", "\n", ""];
    run.note("lexemes in ordered triples and quadruples", some.len() as u64);
    run.par(some.len() * some.len(), |j, acc| for c in &some {
        let (a, b) = (some[j / some.len()], some[j % some.len()]);
        for s in seps { source(run, &format!("{}{}{}{}{}", a, s, b, s, c), 2, acc); }
        for d in &some { source(run, &format!("{} {} {} {}", a, b, c, d), 1, acc); if !run.quick() { source(run, &format!("{}\n{} {}\n{}", a, b, c, d), 2, acc); } }
    });
    neighbours(run);
    // Very many tokens, and very many errors.
    list(run, "long lexemes", long_lexemes(run).into_iter().map(|l| format!("{} let", l)).collect(), 0);
    crowds(run);
    let mut v = vec![];
    for n in [3, 4, 255, 256, 257, 5000, 65536, 66000] { if run.small() && n > 5000 { continue; } for b in ["# ", "1a ", "'\n", "i\\u0066 ", "\\u{ ", "0x ", "1e ", "/a\n", "a\\ "] { v.push(format!("{}a 'b' \n1 let", b.repeat(n))); } }
    run.note("texts of many errors", v.len() as u64);
    run.par(v.len(), |i, acc| for m in ["0", "1"] { run.case(&make(m, &v[i]), acc); });
    // Two tokenizers taking turns in every order.
    let texts = ["a 'b' 1", "let l\\u0065t let", "'a' 'b\\u{", "0x1f 1e 7", "/a/g /b", "\n-->x\ny", "\r\na\u{1f600}b", "a /*\n*/ #", "i\\u0066 if", "'\\ud83d\\ude00' 'x", "1.5e3 .5", ""];
    let len = run.bound(7, 9);
    run.note("pairs of texts read in turns", (texts.len() * texts.len()) as u64);
    run.note("turns", len as u64);
    run.par(texts.len() * texts.len(), |i, acc| for m in 0..1usize << len {
        for up in [false, true] {
            let order: String = (0..len).map(|k| { let c = if m >> k & 1 == 1 { 'b' } else { 'a' }; if up { c.to_ascii_uppercase() } else { c } }).collect();
            run.case(&make(&format!("i{}", order), &format!("{}\0{}", texts[i / texts.len()], texts[i % texts.len()])), acc);
        }
    });
}
