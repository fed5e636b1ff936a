//! P01 totality, P07 strictness, P08 agreement of the entry points, P09 trivia.
use crate::oracles::*;
use crate::refparse::{self, Mode};
use crate::spaces::*;
use esprit::error::Error;
use mc_core::{guarded, Acc, Fail, Run};
use reflex::Text;
use std::error::Error as _;

// ---------------------------------------------------------------- P01 totality

/// Case: program text.  Every entry point and every conversion of a program.
pub fn total(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    acc.sample(|| src.to_string());
    let r = guarded(|| {
        let script = esprit::script(src).map(|_| ());
        let strict = esprit::strict(src).map(|_| ());
        let module = esprit::module(src).map(|_| ());
        let program = esprit::program(src);
        let all = program.as_ref().ok().map(|p| (p.clone().script().map(|_| ()), p.clone().strict().map(|_| ()), p.clone().module().map(|_| ())));
        let mut text = String::new();
        let (a, b, c) = match all { Some((a, b, c)) => (a.err(), b.err(), c.err()), None => (None, None, None) };
        for e in vec![script.err(), strict.err(), module.err(), program.err(), a, b, c].into_iter().flatten() {
            let mut cause = Some(&e as &dyn std::error::Error);
            while let Some(x) = cause {
                text += &format!("{} {:?}", x, x);
                #[allow(deprecated)]
                { text += x.description(); cause = x.cause(); }
            }
            text += variant(&e);
        }
        text
    });
    acc.states += 7;
    acc.transitions += src.len() as u64;
    match r {
        Ok(text) => { acc.outcome(text); Ok(()) }
        Err(p) => Err(Fail::new("panic", format!("panicked on {:?}: {}", src, p))),
    }
}

pub const TOKENS: &[&str] = &[
    "a", "eval", "let", "of", "get", "set", "target", "static", "yield", "await", "async", "1", "'s'", "'use strict'", "'use module'", "/r/g", "\n",
    "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", "=", "==", "+", "++", "--", "*", "/", "/=", "&&", "?", ":", "+=", "=>", "!", "~", "-",
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "false", "finally", "for", "function", "if",
    "import", "in", "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "enum",
];

pub fn totality(run: &Run) {
    let chars: &[&str] = &["a", "1", " ", "\n", "'", "\"", "/", "*", "\\", "u", "{", "}", "(", ")", "[", "]", ";", ",", ".", "=", "+", "<", "!", "-", ":", "é", "`", "\u{2028}"];
    let n = run.bound(4, 5);
    run.strings(chars, 0, n, |ix, acc| {
        let s: String = ix.iter().map(|&i| chars[i]).collect();
        run.case(s.as_bytes(), acc);
    });
    let m = run.bound(3, 4);
    run.strings(TOKENS, 0, m, |ix, acc| {
        let s: Vec<&str> = ix.iter().map(|&i| TOKENS[i]).collect();
        run.case(s.join(" ").as_bytes(), acc);
    });
    // Every cut of every catalogued program, every deletion, and every replacement of one token.
    let all = programs();
    run.par(all.len(), |i, acc| {
        let s = &all[i];
        for (k, _) in s.char_indices() { run.case(s[..k].as_bytes(), acc); run.case(s[k..].as_bytes(), acc); }
        let toks: Vec<&str> = s.split(' ').filter(|t| !t.is_empty()).collect();
        for k in 0..toks.len() {
            let (l, r) = toks.split_at(k);
            run.case(format!("{} {}", l.join(" "), r[1..].join(" ")).as_bytes(), acc);
            run.case(format!("{} {} {}", l.join(" "), r[0], r.join(" ")).as_bytes(), acc);
            for t in TOKENS.iter().filter(|_| !run.quick() || i % 4 == 0) { run.case(format!("{} {} {}", l.join(" "), t, r[1..].join(" ")).as_bytes(), acc); }
        }
    });
    // Nesting.
    let nests: &[(&str, &str, &str)] = &[("(", "a", ")"), ("[", "a", "]"), ("x={a:", "1", "}"), ("{", "", "}"), ("f(", "", ")"), ("a[", "b", "]"), ("function f(){", "", "}"), ("if(a)", ";", ""), ("if(a)b;else ", ";", ""),
        ("while(a)", ";", ""), ("for(;;)", ";", ""), ("do ", ";", " while(a)"), ("new ", "a", ""), ("- ", "a", ""), ("! ", "a", ""), ("typeof ", "a", ""), ("a?", "b", ":c"), ("a?b:", "c", ""), ("a=", "b", ""), ("a+", "b", ""), ("a,", "b", ""), ("a||", "b", ""),
        ("try{", "", "}finally{}"), ("switch(a){case b:", "", "}"), ("with(a)", ";", ""), ("(function(){", "", "})"), ("x={m(){", "", "}}"), ("[...", "a", "]"), ("", "a", ".b"), ("", "a", "()"), ("", "a", "[0]"), ("(", "", ""), ("[", "", ""), ("{", "", ""), ("l:{", "", "}"), ("", "a", "\n"), ("a;", "", ""), ("var a;", "", ""), ("'d';", "", "")];
    let deep = run.bound(300, 1500);
    run.par(nests.len() * nests.len(), |j, acc| {
        let (x, y) = (nests[j / nests.len()], nests[j % nests.len()]);
        if x == y {
            for d in 0..=deep { run.case(format!("{}{}{}", x.0.repeat(d), x.1, x.2.repeat(d)).as_bytes(), acc); }
        } else {
            for d in [1, 2, 3, 50] { run.case(format!("{}{}{}", format!("{}{}", x.0, y.0).repeat(d), y.1, format!("{}{}", y.2, x.2).repeat(d)).as_bytes(), acc); }
        }
    });
    run.note("character_length", n as u64);
    run.note("token_length", m as u64);
    run.note("nesting", deep as u64);
}

/// The catalogued programs.
pub fn programs() -> Vec<String> {
    let mut v: Vec<String> = STMTS.iter().map(|s| s.to_string()).collect();
    for c in STMT_CTX { for s in STMTS { v.push(fill(c, s)); } }
    for c in EXPR_STMT_CTX { for e in EXPRS { v.push(fill(c, e)); } }
    for c in EXPR_CTX { for e in EXPRS { v.push(format!("x = {} ;", fill(c, e))); } }
    v
}

// ---------------------------------------------------------------- P06 errors

pub fn rejections(run: &Run) {
    product(run, &[STMT_CTX.len(), STMTS.len()], |ix, acc| {
        let s = fill(STMT_CTX[ix[0]], STMTS[ix[1]]);
        for outer in STMT_CTX { run.case(&encode(Mode::Script, &fill(outer, &s)), acc); }
    });
    product(run, &[EXPR_CTX.len(), EXPRS.len()], |ix, acc| {
        let e = fill(EXPR_CTX[ix[0]], EXPRS[ix[1]]);
        for outer in EXPR_CTX { run.case(&encode(Mode::Script, &format!("x = {} ;", fill(outer, &e))), acc); }
        for outer in EXPR_STMT_CTX { run.case(&encode(Mode::Script, &fill(outer, &e)), acc); }
    });
    // Every replacement, insertion and deletion of one token in every catalogued program.
    let all = programs();
    run.par(all.len(), |i, acc| {
        if run.quick() && i >= STMTS.len() && i % 3 != 0 { return; }
        let toks: Vec<&str> = all[i].split(' ').filter(|t| !t.is_empty()).collect();
        for k in 0..=toks.len() {
            let (l, r) = toks.split_at(k);
            run.case(&encode(Mode::Script, &l.join(" ")), acc);
            if !r.is_empty() { run.case(&encode(Mode::Script, &format!("{} {}", l.join(" "), r[1..].join(" "))), acc); }
            for t in TOKENS {
                if !r.is_empty() { run.case(&encode(Mode::Script, &format!("{} {} {}", l.join(" "), t, r[1..].join(" "))), acc); }
                if !run.quick() { run.case(&encode(Mode::Script, &format!("{} {} {}", l.join(" "), t, r.join(" "))), acc); }
            }
        }
    });
    // Jumps, labels and functions, nested in every way.
    let jumps: &[&str] = &["l :", "m :", "break ;", "continue ;", "break l ;", "continue l ;", "break m ;", "continue m ;", "while ( a )", "do", "for ( ; ; )", "{", "}", "switch ( a ) { case b :", "function f ( ) {", "return ;", "; while ( a )", "default :", "if ( a )"];
    let d = run.bound(4, 6);
    explore(run, &[
        Space { mode: Mode::Script, pre: "", post: &["}", "} }"], alphabet: jumps, depth: d, revive: &["}", "} }", ";"] },
        Space { mode: Mode::Script, pre: "l : while ( a ) {", post: &["}", "} }"], alphabet: jumps, depth: d, revive: &["}", "} }"] },
        Space { mode: Mode::Script, pre: "function f ( ) { m : l : for ( ; ; )", post: &["}", "} }"], alphabet: jumps, depth: d, revive: &["}", "} }"] },
    ]);
    sizes(run, &|s, acc| run.case(&encode(Mode::Script, &s), acc));
    run.note("jump_depth", d as u64);
}

// ---------------------------------------------------------------- P07 strictness

/// What strictness (or the module goal) decides.
pub const SENSITIVE: &[&str] = &[
    "with (a) b;", "var eval;", "var arguments = 1;", "let eval;", "const arguments = 1;", "eval = 1;", "arguments;", "function eval() {}", "function arguments() {}", "(function eval() {});", "function f(eval) {}", "function f(a, arguments) {}",
    "function f(...eval) {}", "(function (arguments) {});", "x = { set a(eval) {} };", "x = { m(eval) {} };", "x = { eval };", "x = { eval: 1 };", "try {} catch (eval) {}", "for (var eval in b);", "for (let arguments of b);", "for (const eval of b);", "for (eval in b);",
    "var static;", "static = 1;", "static: a;", "while (a) { break static; }", "x = { static };", "x = { static: 1 };", "x = { static() {} };", "x = { get static() {} };", "x = a.static;", "function static() {}", "(function static() {});", "function f(static) {}", "static();", "new static;", "[static] = a;", "({ a: static } = b);",
    "var implements;", "interface;", "package;", "private: a;", "protected = 1;", "public++;", "var let;", "let = 1;", "let: a;", "let + 1;", "var yield;", "yield = 1;", "yield: a;", "x = { yield };", "function yield() {}", "st\\u0061tic;", "var \\u0065val;", "l\\u0065t = 1;", "yi\\u{65}ld;",
    "await;", "var await;", "await: a;", "x = { await };", "function await() {}", "function f(await) {}", "\\u0061wait;", "x = a.await;", "x = { await: 1 };",
    "function f() { with (a) b; }", "function f() { 'use strict'; with (a) b; }", "function static() { 'use strict' }", "function f(eval) { 'use strict' }", "function f(...yield) { 'use strict'; }", "(function arguments() { 'use strict' });", "x = { m(static) { 'use strict' } };", "x = { set a(let) { 'use strict' } };", "x = { get a() { 'use strict'; with (a) b; } };", "x = { * m(eval) { 'use strict' } };",
    "function f() { function g() { 'use strict' } with (a) b; }", "function f() { { 'use strict' } with (a) b; }", "function f() { a; 'use strict'; with (a) b; }", "function f() { 'use strict' } with (a) b;", "function f() { 'use strict'; function g(eval) {} }", "function eval() { function g() { 'use strict' } }",
    "function f() { 'use module'; var await; with (a) b; }", "if (a) 'use strict'; with (a) b;", "async = 1;", "of = 1;", "get = set;", "a;", "", "enum;", "import 'a';", "export var a;", "return;", "super;",
];
pub const DIRECTIVES: &[&str] = &["'use strict'", "\"use strict\"", "'use module'", "\"use module\"", "'use\\x20strict'", "'use str\\\nict'", "('use strict')", "'use strict' + 1", "'use strict'.a", "'a'", "'use strict '", "'USE STRICT'", "'use strict', a", "'use strict'\n/a/g", "'use strict'\n++a", "'use strict'\n[a]", "'use module' + 1", "''", "1", "'use strict' in a"];
const PLACES: &[&str] = &["% @", "function f() { % @ }", "(function () { % @ });", "(function g() { % @ });", "x = { m() { % @ } };", "x = { get a() { % @ } };", "x = { set a(b) { % @ } };", "function * f() { % @ }", "function f() { % } @", "{ % @ }", "function f() { { % } @ }", "function f() { % function g() { @ } }", "function f() { function g() { % } @ }",
    "if (a) { % } @", "@ % @", "function f() { @ % }", "var v = function () { % }, w; @", "a; % @", "/* c */ % @", "// c\n % @"];

fn prologues(run: &Run, n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for k in 0..n {
        let mut next = vec![];
        for p in &last { for d in DIRECTIVES { for end in ["; ", "\n"] {
            if k >= 1 && run.quick() && end == "\n" && DIRECTIVES.iter().position(|x| x == d).unwrap() > 6 { continue; }
            next.push(format!("{}{}{}", p, d, end));
        } } }
        v.extend(next.iter().cloned());
        last = next;
    }
    v
}

pub fn strictness(run: &Run) {
    let one = prologues(run, 1);
    let two = prologues(run, run.bound(2, 3));
    product(run, &[PLACES.len(), one.len()], |ix, acc| {
        for s in SENSITIVE { for &m in MODES { run.case(&encode(m, &PLACES[ix[0]].replace('%', &one[ix[1]]).replace('@', s)), acc); } }
    });
    product(run, &[two.len()], |ix, acc| {
        for s in ["with (a) b;", "var eval;", "var await;", "a;", "static;", "function static() {}", ""] { for &m in MODES { for p in [0, 1, 4, 8] {
            run.case(&encode(m, &PLACES[p].replace('%', &two[ix[0]]).replace('@', s)), acc);
        } } }
    });
    // Two prologues, nested functions.
    product(run, &[PLACES.len(), PLACES.len()], |ix, acc| {
        for a in ["", "'use strict'; ", "'a'\n"] { for b in ["", "'use strict'\n", "'use module'; "] { for s in SENSITIVE { for &m in MODES {
            let inner = PLACES[ix[1]].replace('%', b).replace('@', s);
            run.case(&encode(m, &PLACES[ix[0]].replace('%', a).replace('@', &inner)), acc);
        } } } }
    });
    // Pairs of sensitive constructs.
    product(run, &[SENSITIVE.len(), SENSITIVE.len()], |ix, acc| {
        for &m in MODES { for p in ["", "'use strict'; "] { run.case(&encode(m, &format!("{}{} {}", p, SENSITIVE[ix[0]], SENSITIVE[ix[1]])), acc); } }
    });
    // Every position for a name, every name.
    let names = ["eval", "arguments", "implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "await", "async", "of", "get", "set", "target", "from", "a", "e\\u0076al", "a\\u0077ait", "st\\u{61}tic", "\\u0061", "Static", "evals", "await1", "enum", "undefined", "NaN"];
    let at: Vec<String> = STMTS.iter().map(|s| s.to_string()).chain(EXPRS.iter().map(|e| format!("( {} ) ;", e))).collect();
    product(run, &[at.len(), names.len()], |ix, acc| {
        let toks: Vec<&str> = at[ix[0]].split(' ').collect();
        for k in 0..toks.len() {
            if toks[k].len() != 1 || !toks[k].chars().all(|c| c.is_alphabetic()) { continue; }
            let s: Vec<&str> = toks.iter().enumerate().map(|(i, t)| if i == k { names[ix[1]] } else { t }).collect();
            for &m in MODES { for p in ["@", "function f() { 'use strict'; @ }", "function f() { @ }"] { run.case(&encode(m, &fill(p, &s.join(" "))), acc); } }
        }
    });
    run.note("directives", run.bound(2, 3) as u64);
}

// ---------------------------------------------------------------- P08 agreement

/// A program put together by hand and refined.  Case: letters.  `A`, then the
/// deferred checks of a program of undetermined kind; or `M`, then a module's
/// directives, `|`, and its items.
fn built(s: &str, acc: &mut Acc) -> Check {
    use easter::{decl::{Export, Import}, punc::Semi, stmt::*};
    use esprit::{error::Check as Deferred, Program};
    use joker::{token::StringLiteral, track::*};
    let at = |n: usize| { let n = n as u32; Some(Span { start: Posn { offset: n, line: 0, column: n }, end: Posn { offset: n + 3, line: 1, column: 2 } }) };
    let lit = |src: &str, value: &str| StringLiteral { source: if src.is_empty() { None } else { Some(src.to_string()) }, value: value.to_string() };
    let dir = |i: usize, c: char| Dir { location: at(10 + i), semi: Semi::Explicit(None), string: match c {
        'u' => lit("'use module'", "use module"), 'v' => lit("\"use module\"", "use module"), 'w' => lit("", "use module"),
        's' => lit("'use strict'", "use strict"), 'e' => lit("'use\\x20module'", "use module"), _ => lit("'use modules'", "use modules"),
    } };
    let stmt = |i: usize| StmtListItem::Stmt(Stmt::Empty(at(100 + i)));
    let refine = |p: &Program| (p.clone().script(), p.clone().strict(), p.clone().module());
    acc.transitions += 6;
    acc.states += 4;
    let (mut p, location) = match s.as_bytes()[0] {
        b'A' => {
            let errors: Vec<Error> = (0..4).map(|i| Error::TopLevelReturn(at(i).unwrap())).collect();
            let make = |c: u8| match c { b's' => Deferred::Strict(errors[0].clone()), b't' => Deferred::Strict(errors[1].clone()), b'm' => Deferred::Module(errors[2].clone()), _ => Deferred::Module(errors[3].clone()) };
            let script = Script { location: at(50), dirs: vec![dir(0, 's'), dir(1, 'x')], items: vec![stmt(0), stmt(1)] };
            let p = Program::Ambiguous(s.bytes().skip(1).map(make).collect(), script.clone());
            let err = |set: &[u8]| s.bytes().skip(1).find(|c| set.contains(c)).map(|c| errors[b"stmn".iter().position(|x| *x == c).unwrap()].clone());
            let (a, b, c) = refine(&p);
            acc.outcome((err(b"st").is_some(), err(b"stmn").is_some()));
            if a.as_ref() != Ok(&script) { return Err(Fail::new("built:script", format!("{:?} as a script: {:?}", p, a))); }
            if b != match err(b"st") { Some(e) => Err(e), None => Ok(script.clone()) } { return Err(Fail::new("built:strict", format!("{:?} as strict code: {:?}", p, b))); }
            let module = Module { location: script.location, dirs: script.dirs.clone(), items: script.items.iter().map(|i| ModItem::StmtListItem(i.clone())).collect() };
            if c != match err(b"stmn") { Some(e) => Err(e), None => Ok(module) } { return Err(Fail::new("built:module", format!("{:?} as a module: {:?}", p, c))); }
            (p, script.location)
        }
        _ => {
            let (ds, is) = s[1..].split_once('|').unwrap();
            let item = |(i, c): (usize, char)| match c {
                'i' => ModItem::Import(Import::ForEffect(at(200 + i), lit("'a'", "a"))),
                'e' => ModItem::Export(Export::Var(at(200 + i), vec![], Semi::Inserted)),
                _ => ModItem::StmtListItem(stmt(i)),
            };
            let m = Module { location: if ds.len() == 1 { None } else { at(60) }, dirs: ds.chars().enumerate().map(|(i, c)| dir(i, c)).collect(), items: is.chars().enumerate().map(item).collect() };
            let p = Program::Module(m.clone());
            let want = match (ds.chars().enumerate().find(|(_, c)| "uvw".contains(*c)), is.chars().enumerate().find(|(_, c)| "ie".contains(*c))) {
                (Some((i, c)), _) => Error::UnexpectedDirective(at(10 + i), dir(i, c).string),
                (None, Some(x)) => match item(x) { ModItem::Import(i) => Error::ImportInScript(i), ModItem::Export(e) => Error::ExportInScript(e), _ => unreachable!() },
                _ => Error::UnexpectedModule(m.location),
            };
            acc.outcome(variant(&want));
            message(&want).map_err(|d| Fail::new("built:message", d))?;
            let (a, b, c) = refine(&p);
            if a != Err(want.clone()) || b != Err(want.clone()) { return Err(Fail::new("built:refusal", format!("{:?} refused with {:?} and {:?}; expected {:?}", p, a, b, want))); }
            if c.as_ref() != Ok(&m) { return Err(Fail::new("built:module", format!("{:?} as a module: {:?}", p, c))); }
            (p, m.location)
        }
    };
    // A program's location is its body's, and is erased with it.
    if *p.tracking_ref() != location { return Err(Fail::new("built:location", format!("{:?} is located at {:?}", p, p.tracking_ref()))); }
    let before = p.clone();
    *p.tracking_mut() = at(70);
    if *p.tracking_ref() != at(70) || p == before { return Err(Fail::new("built:location", format!("{:?}, set to {:?}, is located at {:?}", before, at(70), p.tracking_ref()))); }
    p.untrack();
    let mut clean = before.clone();
    match clean { Program::Ambiguous(_, ref mut b) => b.untrack(), Program::Module(ref mut b) => b.untrack() }
    if p != clean || p.tracking_ref().is_some() { return Err(Fail::new("built:erased", format!("{:?} erased to {:?}", before, p))); }
    Ok(())
}

/// Case: program text; or U+0001 and a program built by hand.
pub fn agreement(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    acc.sample(|| src.to_string());
    if let Some(s) = src.strip_prefix('\u{1}') {
        return match guarded(|| built(s, acc)) { Ok(r) => r, Err(p) => Err(Fail::new("panic", format!("panicked: {}", p))) };
    }
    let (_, tokens, use_module) = refparse::parse_program(&Text::new(src), Mode::Script);
    acc.transitions += tokens;
    acc.states += 4;
    let got = guarded(|| {
        let p = esprit::program(src);
        let (sc, st, md) = (esprit::script(src), esprit::strict(src), esprit::module(src));
        match p {
            Err(e) => {
                acc.outcome((variant(&e), use_module));
                if md.is_ok() { return Err(Fail::new("module", format!("program: {:?}; module accepts", e))); }
                if use_module { return Ok(()); }
                match sc {
                    Ok(_) => Err(Fail::new("script", format!("program: {:?}; script accepts", e))),
                    Err(ref f) if *f != e && !matches!(e, Error::UnsupportedFeature(_)) && !refused_later(&e, f) =>
                        Err(Fail::new("error", format!("program: {:?}; script: {:?}", e, f))),
                    Err(_) if st.is_ok() => Err(Fail::new("strict", format!("program: {:?}; strict accepts", e))),
                    Err(_) => Ok(()),
                }
            }
            Ok(p) => {
                let module = match p { esprit::Program::Module(_) => true, _ => false };
                acc.outcome((module, sc.is_ok(), st.is_ok(), md.is_ok(), format!("{:?}", st.as_ref().err())));
                if module != use_module { return Err(Fail::new("goal", format!("taken for a {}", if module { "module" } else { "script" }))); }
                let (a, b, c) = (p.clone().script(), p.clone().strict(), p.module());
                if c != md { return Err(Fail::new("module", format!("program: {:?}; module: {:?}", c, md))); }
                if module {
                    for r in [a, b] { match r {
                        Err(Error::UnexpectedDirective(Some(_), ref s)) if s.value == "use module" => {}
                        r => return Err(Fail::new("refusal", format!("a module as a script: {:?}", r))),
                    } }
                    return Ok(());
                }
                if a != sc { return Err(Fail::new("script", format!("program: {:?}; script: {:?}", a, sc))); }
                if b != st { return Err(Fail::new("strict", format!("program: {:?}; strict: {:?}", b, st))); }
                Ok(())
            }
        }
    });
    match got { Ok(r) => r, Err(p) => Err(Fail::new("panic", format!("panicked: {}", p))) }
}
/// Import and export change the goal, so what a script makes of them differs.
fn refused_later(_e: &Error, script: &Error) -> bool {
    match *script {
        Error::UnexpectedToken(ref t) => matches!(t.value, joker::token::TokenData::Reserved(joker::word::Reserved::Import) | joker::token::TokenData::Reserved(joker::word::Reserved::Export)),
        _ => false,
    }
}

pub fn entry_points(run: &Run) {
    let emit = |s: &str, acc: &mut Acc| run.case(s.as_bytes(), acc);
    let (checks, dirs, items) = (["s", "t", "m", "n"], ["u", "v", "w", "s", "e", "x"], ["i", "e", ";"]);
    run.strings(&checks, 0, run.bound(5, 7), |ix, acc| emit(&format!("\u{1}A{}", ix.iter().map(|&i| checks[i]).collect::<String>()), acc));
    run.strings(&dirs, 0, run.bound(3, 5), |ix, acc| {
        let d: String = ix.iter().map(|&i| dirs[i]).collect();
        for n in 0..40 {
            let mut i = String::new();
            let mut k = n;
            while k > 0 { i.push_str(items[(k - 1) % 3]); k = (k - 1) / 3; }
            emit(&format!("\u{1}M{}|{}", d, i), acc);
        }
    });
    let one = prologues(run, 1);
    let two = prologues(run, 2);
    product(run, &[PLACES.len(), one.len()], |ix, acc| {
        for s in SENSITIVE { emit(&PLACES[ix[0]].replace('%', &one[ix[1]]).replace('@', s), acc); }
    });
    product(run, &[two.len()], |ix, acc| {
        for s in SENSITIVE { emit(&format!("{}{}", two[ix[0]], s), acc); }
    });
    product(run, &[SENSITIVE.len(), SENSITIVE.len()], |ix, acc| {
        for p in ["", "'use strict'; ", "'use module'; "] {
            emit(&format!("{}{} {}", p, SENSITIVE[ix[0]], SENSITIVE[ix[1]]), acc);
            emit(&format!("{}function f() {{ {} }} {}", p, SENSITIVE[ix[0]], SENSITIVE[ix[1]]), acc);
            if !run.quick() { for s in SENSITIVE { emit(&format!("{}{} {} {}", p, SENSITIVE[ix[0]], SENSITIVE[ix[1]], s), acc); } }
        }
    });
    let all = programs();
    product(run, &[all.len()], |ix, acc| {
        emit(&all[ix[0]], acc);
        for d in ["'use strict'; ", "'use module'; "] { emit(&format!("{}{}", d, all[ix[0]]), acc); }
        emit(&format!("{} with (a) b;", all[ix[0]]), acc);
        emit(&format!("{} var await;", all[ix[0]]), acc);
        emit(&format!("{} import 'a'", all[ix[0]]), acc);
    });
}

// ---------------------------------------------------------------- P09 trivia

/// Case: mode letter, two texts separated by U+0000.
pub fn trivia(case: &[u8], acc: &mut Acc) -> Check {
    let (mode, both) = decode(case);
    let (a, b) = both.split_once('\0').expect("two texts");
    acc.sample(|| format!("{:?} / {:?}", a, b));
    let (x, y) = (implementation(mode, a)?, implementation(mode, b)?);
    acc.states += 2;
    acc.transitions += 1;
    acc.outcome(match x { Ok(ref n) => n.show(), Err(ref e) => shown(e) });
    match (x, y) {
        (Ok(m), Ok(n)) => match m.diff(&n) {
            None => Ok(()),
            Some((k, d)) => Err(Fail::new(&format!("tree:{}", k), format!("{:?} and {:?}: {}", a, b, d))),
        },
        (Err(e), Err(f)) if shown(&e) == shown(&f) => Ok(()),
        (Err(e), Err(f)) => Err(Fail::new("error", format!("{:?}: {:?}; {:?}: {:?}", a, e, b, f))),
        (Ok(n), Err(e)) => Err(Fail::new("second", format!("{:?}: {}; {:?}: {:?}", a, n.show(), b, e))),
        (Err(e), Ok(n)) => Err(Fail::new("first", format!("{:?}: {:?}; {:?}: {}", a, e, b, n.show()))),
    }
}
/// An error without its positions.
fn shown(e: &Error) -> String {
    let t = |t: &joker::token::Token| format!("{:?}", crate::canon::kind(&t.value));
    let what = match *e {
        Error::UnexpectedToken(ref x) | Error::FailedASI(ref x) | Error::IllegalBreak(ref x) | Error::IllegalContinue(ref x)
        | Error::DuplicateDefault(ref x) | Error::StrictWith(ref x) | Error::ThrowArgument(ref x) | Error::OrphanTry(ref x) => t(x),
        Error::InvalidLabel(ref i) | Error::InvalidLabelType(ref i) => format!("{:?}", i.name),
        Error::ContextualKeyword(_, a) | Error::IllegalStrictBinding(_, a) => format!("{:?}", a),
        // Literals that a line break ends name that break.
        Error::LexError(joker::error::Error::UnterminatedRegExp(_)) | Error::LexError(joker::error::Error::UnterminatedString(_)) => String::new(),
        Error::LexError(ref l) => format!("{:?}", l),
        Error::InvalidLHS(_, ref c) => format!("{}", c),
        _ => String::new(),
    };
    format!("{} {}", variant(e), what)
}

const SPACES: &[&str] = &["  ", "\t", "\u{b}\u{c}", "\u{a0}", "\u{feff}", "\u{3000}", " /**/", " /* é😀 */", " /* // */ "];
const BREAKS: &[&str] = &["\r", "\r\n", "\u{2028}", "\u{2029}", "\n\n", " /*\n*/", " /*\r*/", " /*\u{2028}*/", " // c\n", " // c\r\n", " //\u{2029}", " /**/\n", "\n/**/", " <!-- c\n", "\n--> c\n", " /*\n*/--> c\n", "\n//c\n"];

pub fn layouts(run: &Run) {
    let all = programs();
    product(run, &[all.len(), 2], |ix, acc| {
        let (base, kinds) = if ix[1] == 0 { (" ", SPACES) } else { ("\n", BREAKS) };
        let toks: Vec<&str> = all[ix[0]].split(' ').filter(|t| !t.is_empty()).collect();
        // Trivia are not trivia inside a regular expression.
        match refparse::parse(&Text::new(&all[ix[0]]), Mode::Script).0 {
            Err(_) if toks.iter().any(|t| *t == "/" || *t == "/=") => return,
            Ok(ref n) if n.any(&|k| k.kind == "RegExp" && k.text[1..].split('"').next().unwrap().contains(' ')) => return,
            _ => {}
        }
        let join = |f: &dyn Fn(usize) -> &'static str| {
            let mut s = f(0).to_string();
            for (i, t) in toks.iter().enumerate() { s += t; s += f(i + 1); }
            s
        };
        let mut emit = |a: String, b: String| run.case(&encode(Mode::Script, &format!("{}\0{}", a, b)), acc);
        // Everywhere at once, against a plain space or line break everywhere.
        for k in kinds { emit(join(&|_| base), join(&|_| k)); }
        if run.quick() && ix[0] >= STMTS.len() && ix[0] % 4 != 0 { return; }
        // In one place.
        for g in 0..=toks.len() { for k in kinds {
            let plain = join(&|i| if i == g { base } else { " " });
            emit(plain, join(&|i| if i == g { k } else { " " }));
        } }
    });
}
