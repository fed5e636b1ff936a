//! The syntax tree's own operations (easter): operator tables, conversion of
//! expressions into patterns, erasure of locations and equality, helpers.
use crate::conv::{self, MISTRACKED};
use crate::modes::programs;
use crate::oracles::Check;
use crate::refparse::{self, ASSIGN, LEVELS};
use crate::spaces::*;
use crate::tree::*;
use easter::cover::*;
use easter::decl::*;
use easter::expr::Expr;
use easter::id::{Id, IdExt};
use easter::patt::*;
use easter::punc::*;
use easter::stmt::*;
use joker::token::{Token, TokenData};
use joker::track::*;
use joker::word::Name;
use mc_core::{guarded, Acc, Fail, Run};
use std::fmt::{Debug, Display};
use std::str::FromStr;

fn caught(r: Result<Check, String>) -> Check { match r { Ok(r) => r, Err(p) => Err(Fail::new("panic", format!("panicked: {}", p))) } }
fn fail<T>(key: &str, msg: String) -> Result<T, Fail> { Err(Fail::new(key, msg)) }

// ---------------------------------------------------------------- A01 operators

const UNARY: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete"];
fn level(o: &str) -> Option<usize> { LEVELS.iter().position(|l| l.contains(&o)) }

/// Reads and shows the operator with both forms of its tag; what it shows as.
fn read<T: FromStr + Debug + PartialEq + Clone>(s: &str, known: bool, show: &dyn Fn(&T) -> String) -> Result<Option<T>, Fail> where Op<T>: FromStr {
    let (tag, op) = (T::from_str(s), s.parse::<Op<T>>());
    if tag.is_ok() != known || op.is_ok() != known {
        return fail("read", format!("{:?} is {} an operator, but is read as {:?}", s, if known { "" } else { "not" }, tag.ok()));
    }
    let (tag, op) = match (tag, op) { (Ok(t), Ok(o)) => (t, o), _ => return Ok(None) };
    if op.tag != tag || op.location.is_some() { return fail("read", format!("{:?} is read as {:?} and as {:?} at {:?}", s, tag, op.tag, op.location)); }
    if show(&tag) != s { return fail("show", format!("{:?} is read as {:?}, which is shown as {:?}", s, tag, show(&tag))); }
    Ok(Some(tag))
}
fn shown<T: Display>(t: &T) -> String {
    let o = Op { location: None, tag: () };
    let _ = o;
    t.to_string()
}
fn unary(t: &UnopTag) -> String {
    match *t {
        UnopTag::Minus => "-", UnopTag::Plus => "+", UnopTag::Not => "!", UnopTag::BitNot => "~",
        UnopTag::Typeof => "typeof", UnopTag::Void => "void", UnopTag::Delete => "delete",
    }.to_string()
}

/// Case: a text, or two operators with a blank between them.
pub fn operators(case: &[u8], acc: &mut Acc) -> Check {
    let s = std::str::from_utf8(case).expect("case text");
    acc.sample(|| s.to_string());
    acc.transitions += 1;
    acc.states += 1;
    caught(guarded(|| {
        if let Some((a, b)) = s.split_once(' ') {
            // Relative precedence.
            let p = |o: &str| -> u32 {
                match (o.parse::<Binop>(), o.parse::<Logop>(), o.parse::<Assop>()) {
                    (Ok(x), _, _) => { assert_eq!(x.precedence(), x.tag.precedence()); x.precedence() }
                    (_, Ok(x), _) => { assert_eq!(x.precedence(), x.tag.precedence()); x.precedence() }
                    (_, _, Ok(x)) => x.precedence(),
                    _ => panic!("no operator {:?}", o),
                }
            };
            let want = level(a).map_or(-1, |x| x as i32).cmp(&level(b).map_or(-1, |x| x as i32));
            acc.outcome(want);
            return if p(a).cmp(&p(b)) == want { Ok(()) } else { fail("precedence", format!("{} has precedence {} and {} {}", a, p(a), b, p(b))) };
        }
        let binary = level(s).is_some() && s != "||" && s != "&&";
        let logical = s == "||" || s == "&&";
        let assign = ASSIGN.contains(&s);
        let (b, l, a) = (read::<BinopTag>(s, binary, &shown)?, read::<LogopTag>(s, logical, &shown)?, read::<AssopTag>(s, assign, &shown)?);
        read::<UnopTag>(s, UNARY.contains(&s), &unary)?;
        acc.outcome((binary, logical, assign, UNARY.contains(&s)));
        // The token, as an operator.
        let span = Span { start: Posn { offset: 3, line: 1, column: 2 }, end: Posn { offset: 9, line: 2, column: 4 } };
        let tok = match joker::lexer::Lexer::new(s.chars()).read_token(true) {
            Ok(t) if t.value != TokenData::EOF && t.location.end.offset as usize == s.chars().count() => Token { location: span, newline: false, value: t.value },
            _ => return Ok(()),
        };
        for allow_in in [true, false] {
            let got = tok.to_binop(allow_in);
            let want = if s == "in" && !allow_in { None } else { b.clone() };
            if got.as_ref().map(|o| (&o.tag, o.location)) != want.as_ref().map(|t| (t, Some(span))) {
                return fail("token", format!("the token {:?} (in: {}) gives {:?}, expected {:?}", s, allow_in, got, want));
            }
        }
        let got = tok.to_logop();
        if got.as_ref().map(|o| (&o.tag, o.location)) != l.as_ref().map(|t| (t, Some(span))) { return fail("token", format!("the token {:?} gives {:?}", s, got)); }
        let got = tok.to_assop();
        if got.as_ref().map(|o| (&o.tag, o.location)) != a.as_ref().map(|t| (t, Some(span))) { return fail("token", format!("the token {:?} gives {:?}", s, got)); }
        Ok(())
    }))
}

pub fn operator_texts(run: &Run) {
    let chars: Vec<String> = "=!<>+-*/%|&^~.?:,;(){}[]ai1'".chars().map(|c| c.to_string()).collect();
    let refs: Vec<&str> = chars.iter().map(|s| s.as_str()).collect();
    let len = run.bound(4, 5);
    run.strings(&refs, 0, len, |ix, acc| {
        let s: String = ix.iter().map(|&i| refs[i]).collect();
        run.case(s.as_bytes(), acc);
    });
    // Words, and every word one letter away from an operator.
    let words = ["in", "instanceof", "typeof", "void", "delete", "new", "of", "let", "yield", "this", "case", "throw", "return", "else", "do", "IN", "Typeof"];
    run.par(words.len(), |w, acc| {
        let w: Vec<char> = words[w].chars().collect();
        run.case(w.iter().collect::<String>().as_bytes(), acc);
        for i in 0..=w.len() { for c in ('a'..='z').chain("AZ_$0=\0é".chars()) {
            let (mut x, mut y) = (w.clone(), w.clone());
            x.insert(i, c);
            if i < w.len() { y[i] = c; }
            for v in [x, y] { run.case(v.iter().collect::<String>().as_bytes(), acc); }
        } }
        for i in 0..w.len() { let mut x = w.clone(); x.remove(i); run.case(x.iter().collect::<String>().as_bytes(), acc); }
    });
    let ops: Vec<&str> = LEVELS.iter().flat_map(|l| l.iter()).chain(ASSIGN).cloned().collect();
    product(run, &[ops.len(), ops.len()], |ix, acc| run.case(format!("{} {}", ops[ix[0]], ops[ix[1]]).as_bytes(), acc));
    run.note("text_length", len as u64);
}

// ---------------------------------------------------------------- A02 cover grammar

fn expression(src: &str) -> Option<Expr> {
    let b = match guarded(|| esprit::script(&format!("x ( {} ) ;", src))) { Ok(Ok(b)) => b, _ => return None };
    match b.items.into_iter().next() {
        Some(StmtListItem::Stmt(Stmt::Expr(_, Expr::Call(_, _, args), _))) if args.len() == 1 => match args.into_iter().next() {
            Some(easter::expr::ExprListItem::Expr(e)) => Some(e),
            _ => None,
        },
        _ => None,
    }
}

/// The places that keep the expression from being a pattern.
fn faults(e: &Node, out: &mut Vec<(&'static str, Loc)>) {
    match e.kind {
        "Id" | "Dot" | "Brack" => {}
        "Obj" => for p in &e.kids { match p.kind {
            "Shorthand" => {}
            "Prop" if p.kids[1].kind != "Get" && p.kids[1].kind != "Set" => faults(&p.kids[1], out),
            _ => out.push(("InvalidPropPatt", p.loc)),
        } },
        "Arr" => for (i, x) in e.kids.iter().enumerate() { match x.kind {
            "Hole" => {}
            "Spread" if i + 1 < e.kids.len() => out.push(("InvalidAssignTarget", x.loc)),
            "Spread" => faults(&x.kids[0], out),
            _ => faults(x, out),
        } },
        _ => out.push(("InvalidAssignTarget", e.loc)),
    }
}

/// Case: an expression.
pub fn cover(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    acc.sample(|| src.to_string());
    let e = match expression(src) { Some(e) => e, None => { acc.outcome("not an expression"); return Ok(()); } };
    caught(guarded(|| {
        let node = conv::expr(&e);
        acc.states += node.size();
        acc.transitions += 2;
        let compare = |what: &str, want: Result<Node, refparse::Why>, got: Result<Node, Error>, faults: &[(&'static str, Loc)]| -> Check {
            match (want, got) {
                (Ok(w), Ok(g)) => match w.diff(&g) {
                    Some((k, d)) => fail(&format!("{}:{}", what, k), d),
                    None if !w.same_places(&g) => fail(&format!("{}:places", what), format!("locations change in {}: {:?} to {:?}", w.show(), w, g)),
                    None => Ok(()),
                },
                (Err(_), Ok(g)) => fail(&format!("{}:accepts", what), format!("{} becomes {}", src, g.show())),
                (Ok(w), Err(x)) => fail(&format!("{}:rejects", what), format!("{:?}; expected {}", x, w.show())),
                (Err(_), Err(x)) => {
                    let (kind, at) = match x { Error::InvalidAssignTarget(l) => ("InvalidAssignTarget", l), Error::InvalidPropPatt(l) => ("InvalidPropPatt", l) };
                    if !faults.contains(&(kind, conv::loc(&at))) { return fail(&format!("{}:blame", what), format!("{:?}; the faults are {:?}", x, faults)); }
                    let m = x.to_string();
                    let want = if kind == "InvalidPropPatt" { "invalid object property in assignment pattern" } else { "invalid assignment pattern" };
                    if m != want { return fail("message", format!("{:?} is shown as {:?}", x, m)); }
                    Ok(())
                }
            }
        };
        let simple = if ["Id", "Dot", "Brack"].contains(&node.kind) { vec![] } else { vec![("InvalidAssignTarget", node.loc)] };
        let mut all = vec![];
        faults(&node, &mut all);
        acc.outcome((simple.is_empty(), all.clone()));
        compare("target", refparse::target_of(node.clone()), e.clone().into_assign_target().map(|t| conv::target(&t)), &simple)?;
        compare("pattern", refparse::pattern_of(node.clone()), e.clone().into_assign_patt().map(|p| conv::assign_patt(&p)), &all)
    }))
}

pub fn covers(run: &Run) {
    let leaves: &[&str] = &["a", "a . b", "a [ b ]", "a ( )", "1", "this", "( a )", "a = b", "a + b", "a ++", "new . target"];
    let wraps: &[&str] = &["[ @ ]", "[ @ , ]", "[ , @ ]", "[ @ , , a ]", "[ ... @ ]", "[ a , ... @ ]", "[ ... @ , a ]", "[ ... a , @ ]", "{ p : @ }", "{ 'p' : @ , 1 : a }", "{ a , p : @ }", "{ p : @ , get q ( ) { } }", "{ p : @ , m ( ) { } }", "{ set q ( v ) { } , p : @ }", "@ = a", "@ . p", "a [ @ ]", "( @ )", "f ( @ )", "@ , a", "[ @ , @ ]", "{ p : @ , q : @ }"];
    let depth = run.bound(4, 5);
    for d in 0..=depth {
        let mut sizes = vec![leaves.len()];
        sizes.extend(vec![wraps.len(); d]);
        product(run, &sizes, |ix, acc| {
            let mut s = leaves[ix[0]].to_string();
            for &w in &ix[1..] { s = fill(wraps[w], &s); }
            run.case(s.as_bytes(), acc);
        });
    }
    product(run, &[EXPR_CTX.len(), EXPRS.len()], |ix, acc| {
        let e = fill(EXPR_CTX[ix[0]], EXPRS[ix[1]]);
        for c in EXPR_CTX { run.case(fill(c, &e).as_bytes(), acc); }
    });
    // Token sequences inside literals.
    let alpha: &[&str] = &["a", "[", "]", "{", "}", ",", "...", ":", ".", "get", "(", ")", "1"];
    let len = run.bound(5, 6);
    run.strings(alpha, 0, len, |ix, acc| {
        let s: Vec<&str> = ix.iter().map(|&i| alpha[i]).collect();
        for (a, b) in [("[", "]"), ("{", "}")] { run.case(format!("{} {} {}", a, s.join(" "), b).as_bytes(), acc); }
    });
    run.note("nesting", depth as u64);
    run.note("token_depth", len as u64);
}

// ---------------------------------------------------------------- A03 erasure and equality

fn places(n: &Node) -> bool { n.any(&|x| x.loc.is_some() || (x.kind == "Semi" && x.text != "explicit")) }

/// Case: a program, or two with a NUL between them.
pub fn erasure(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    acc.sample(|| src.to_string());
    let parts: Vec<&str> = src.split('\0').collect();
    let parse = |s: &str| guarded(|| esprit::script(s)).ok().and_then(|r| r.ok());
    let a = match parse(parts[0]) { Some(a) => a, None => { acc.outcome("not a program"); return Ok(()); } };
    if parts.len() == 2 {
        let b = match parse(parts[1]) { Some(b) => b, None => { acc.outcome("not a program"); return Ok(()); } };
        return caught(guarded(|| pair(&a, &b, acc)));
    }
    caught(guarded(|| {
        acc.transitions += 3;
        MISTRACKED.with(|m| m.borrow_mut().clear());
        let na = conv::script(&a);
        acc.states += na.size();
        acc.outcome(na.show());
        if let Some(k) = MISTRACKED.with(|m| m.borrow().first().cloned()) { return fail(&format!("tracked:{}", k), format!("a {} node's tracked location is not its own, in {}", k, na.show())); }
        if a != a.clone() || a != parse(parts[0]).unwrap() { return fail("reflexive", format!("a tree differs from its copy: {}", na.show())); }
        let mut u = a.clone();
        u.untrack();
        let nu = conv::script(&u);
        if u.location.is_some() { return fail("left:Body", format!("the body keeps its location {:?}", u.location)); }
        if places(&nu) {
            let mut at = "";
            nu.each(&mut |x| if x.loc.is_some() || (x.kind == "Semi" && x.text != "explicit") { at = x.kind; });
            return fail(&format!("left:{}", at), format!("a {} keeps its location: {:?}", at, nu));
        }
        if let Some((k, d)) = strip_semis(&na).diff(&strip_semis(&nu)) { return fail(&format!("changed:{}", k), d); }
        let mut again = u.clone();
        again.untrack();
        if again != u { return fail("idempotent", format!("erasing twice gives another tree: {}", nu.show())); }
        if let Some(k) = MISTRACKED.with(|m| m.borrow().first().cloned()) { return fail(&format!("tracked:{}", k), format!("a {} node's tracked location is not its own, once erased", k)); }
        if places(&na) && !a.items.is_empty() && a == u && !na.same_places(&nu) { return fail("located", format!("a tree equals its erasure: {}", na.show())); }
        // Setting the location of one node.
        let spot = Some(Span { start: Posn { offset: 77, line: 7, column: 7 }, end: Posn { offset: 88, line: 8, column: 8 } });
        for i in 0..a.items.len() {
            let mut m = u.clone();
            *m.items[i].tracking_mut() = spot;
            if *m.items[i].tracking_ref() != spot { return fail("set", format!("a location set on {:?} reads as {:?}", m.items[i], m.items[i].tracking_ref())); }
            if m == u { return fail("set:equal", format!("trees that differ in a location are equal: {:?}", m.items[i])); }
            let nm = conv::script(&m);
            if nm.diff(&nu).is_some() { return fail("set:changed", format!("setting a location changes {} into {}", nu.show(), nm.show())); }
            let mut set = 0;
            nm.each(&mut |x| if x.loc.is_some() { set += 1 });
            if set == 0 { return fail("set:lost", format!("a location set on {:?} is not there", m.items[i])); }
            if let StmtListItem::Stmt(Stmt::Expr(_, ref mut e, _)) = m.items[i] {
                *e.tracking_mut() = spot;
                if *e.tracking_ref() != spot { return fail("set", format!("a location set on {:?} reads as {:?}", e, e.tracking_ref())); }
                if conv::expr(e).loc != conv::loc(&spot) && !["Fun"].contains(&conv::expr(e).kind) { return fail("set:lost", format!("a location set on {:?} is not there", e)); }
            }
        }
        Ok(())
    }))
}
fn strip_semis(n: &Node) -> Node {
    let mut x = n.clone();
    if x.kind == "Semi" { x.text = String::new(); }
    x.kids = n.kids.iter().map(strip_semis).collect();
    x
}
fn pair(a: &Script, b: &Script, acc: &mut Acc) -> Check {
    let (na, nb) = (conv::script(a), conv::script(b));
    acc.transitions += 2;
    acc.states += 2;
    let same = na.value_diff(&nb).is_none();
    let located = same && na.same_places(&nb);
    acc.outcome((same, located));
    if (a == b) != (b == a) || (a != b) == (a == b) { return fail("symmetric", format!("equality of {} and {} depends on the side", na.show(), nb.show())); }
    if a == b && !located { return fail("located", format!("{} equals {} despite different locations", na.show(), nb.show())); }
    let (mut u, mut v) = (a.clone(), b.clone());
    u.untrack();
    v.untrack();
    if (u == v) != same || (v == u) != same {
        return fail(if same { "unequal" } else { "equal" }, format!("without locations, {} {} {}", na.show(), if u == v { "equals" } else { "differs from" }, nb.show()));
    }
    // The debug text tells trees apart exactly as equality does.
    if (format!("{:?}", u) == format!("{:?}", v)) != same { return fail("debug", format!("without locations, the debug texts of {} and {} {}", na.show(), nb.show(), if same { "differ" } else { "are the same" })); }
    Ok(())
}

/// Variants of one node each, so that all pairs compare every kind with itself
/// in every differing part and with every other kind.
fn variants() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let es = ["a", "b", "\\u0061", "this", "null", "true", "false", "1", "1.0", "0x1", "2", "0", "'s'", "\"s\"", "'\\x73'", "'t'", "/r/", "/r/g", "/r/gi", "/r/ig", "/s/", "new . target",
        "[ ]", "[ , ]", "[ a ]", "[ a , ]", "[ a , , ]", "[ , a ]", "[ ... a ]", "[ a , b ]", "{ }", "{ a }", "{ b }", "{ a : a }", "{ a : b }", "{ 'a' : a }", "{ \"a\" : a }", "{ 1 : a }", "{ 1.0 : a }", "{ 2 : a }", "{ get a ( ) { } }", "{ get a ( ) { b } }", "{ set a ( b ) { } }", "{ set a ( c ) { } }", "{ a ( ) { } }", "{ * a ( ) { } }", "{ a ( b ) { } }", "{ a ( ... b ) { } }", "{ a , b }",
        "function ( ) { }", "function a ( ) { }", "function b ( ) { }", "function * ( ) { }", "function ( a ) { }", "function ( b ) { }", "function ( ... a ) { }", "function ( a , b ) { }", "function ( ) { a }", "function ( ) { 'a' }", "function ( ) { ( 'a' ) }", "function ( ) { \"a\" }",
        "a , b", "b , a", "a , b , c", "- a", "+ a", "! a", "~ a", "typeof a", "void a", "delete a", "- b", "++ a", "a ++", "-- a", "a --", "++ b", "++ a . b", "a = b", "b = a", "a . b = c", "a += b", "a -= b", "a *= b", "b += a", "[ a ] = b", "[ , ] = b", "[ ] = b", "[ ... a ] = b", "[ a , ... a ] = b", "{ a } = b", "{ a : a } = b", "{ b : a } = b", "{ a : c } = b", "{ 'a' : a } = b",
        "a ? b : c", "a ? c : b", "b ? a : c", "a ( )", "b ( )", "a ( a )", "a ( ... a )", "a ( a , a )", "new a", "new a ( )", "new b", "new a ( a )", "new a ( ... a )", "a . a", "a . b", "b . a", "a [ a ]", "a [ b ]", "b [ a ]", "a [ 'a' ]"];
    for e in es { v.push(format!("( {} ) ;", e)); }
    for o in BINARY { v.push(format!("x = a {} b ;", o)); }
    v.push("x = b + a ;".into());
    v.push("x = b || a ;".into());
    for s in STMTS { v.push(s.to_string()); }
    for s in ["a : b", "a : c", "b : b", "if ( a ) b", "if ( a ) c ; else b", "if ( b ) b ;", "while ( b ) b ;", "while ( a ) c ;", "do b ; while ( a ) ;", "do c ; while ( b ) ;", "with ( b ) b ;", "with ( a ) c ;", "for ( a ; ; ) ;", "for ( ; a ; ) ;", "for ( ; ; a ) ;", "for ( var a ; ; ) ;", "for ( var a = b ; ; ) ;", "for ( let a ; ; ) ;", "for ( let a = b ; ; ) ;", "for ( const a = b ; ; ) ;", "for ( ; ; ) a ;",
        "for ( b in a ) ;", "for ( a in b ) ;", "for ( var a = b in b ) ;", "for ( var a = c in b ) ;", "for ( let b in b ) ;", "for ( const b in b ) ;", "for ( a of a ) ;", "for ( b of b ) ;", "for ( var b of b ) ;", "for ( let b of b ) ;", "for ( const b of b ) ;",
        "var a = b ;", "var a = c ;", "var b ;", "var a , b ;", "let b ;", "let a = b ;", "const a = c ;", "const b = 1 ;", "throw b ;", "throw a", "debugger", "try { } catch ( f ) { }", "try { } catch ( e ) { a }", "try { a } catch ( e ) { }", "try { } catch ( e ) { } finally { }", "try { } catch ( e ) { } finally { a }", "switch ( b ) { }", "switch ( a ) { case 1 : }", "switch ( a ) { case 2 : }", "switch ( a ) { case 1 : b }", "switch ( a ) { default : }", "switch ( a ) { case 1 : default : }", "switch ( a ) { default : case 1 : }",
        "{ a }", "{ ; }", "{ { } }", "'a'", "'a' ;", "\"a\"", "'\\x61'", "'b'", "'a' ; 'b'", "'a' ; a", "( 'a' )", "a ; b", "a\nb", "", "function a ( ) { }", "function * a ( ) { }", "function a ( b ) { }", "function a ( c ) { }", "function a ( ... b ) { }", "function a ( ) { b }", "function a ( ) { 'b' }", "a : while ( b ) break a", "a : while ( b ) continue a", "a : b : while ( b ) break b", "a : while ( b ) break", "while ( b ) continue"] { v.push(s.to_string()); }
    v
}

pub fn erasures(run: &Run) {
    let all = programs();
    run.par(all.len(), |i, acc| {
        run.case(all[i].as_bytes(), acc);
        let spread: String = all[i].replace(' ', "  ").replace(" (", "\n(");
        for other in [spread, all[i].clone()] { run.case(format!("{}\0{}", all[i], other).as_bytes(), acc); }
    });
    let v = variants();
    let wraps: &[&str] = if run.quick() { &["@"] } else { &["@", "{ @ }", "function f ( ) { @ }", "if ( a ) { @ } else { @ }", "switch ( a ) { case b : @ }", "try { @ } finally { a }", "x = { m ( ) { @ } , get p ( ) { @ } } ;"] };
    product(run, &[wraps.len(), v.len(), v.len()], |ix, acc| {
        let (a, b) = (fill(wraps[ix[0]], &v[ix[1]]), fill(wraps[ix[0]], &v[ix[2]]));
        run.case(format!("{}\0{}", a, b).as_bytes(), acc);
    });
    // The same variants deep inside, at the same and at other places.
    product(run, &[STMT_CTX.len(), v.len()], |ix, acc| {
        let p = fill(STMT_CTX[ix[0]], &v[ix[1]]);
        run.case(p.as_bytes(), acc);
        for d in [1, v.len() - 1] { run.case(format!("{}\0{}", p, fill(STMT_CTX[ix[0]], &v[(ix[1] + d) % v.len()])).as_bytes(), acc); }
        for c in [1, STMT_CTX.len() - 1] { run.case(format!("{}\0{}", p, fill(STMT_CTX[(ix[0] + c) % STMT_CTX.len()], &v[ix[1]])).as_bytes(), acc); }
    });
    sizes(run, &|x, acc| run.case(x.as_bytes(), acc));
    run.note("programs", all.len() as u64);
    run.note("variants", v.len() as u64);
}

// ---------------------------------------------------------------- A04 helpers

fn show_dtor(d: &Dtor) -> Node { match *d {
    Dtor::Simple(ref l, ref i, ref e) => n("Simple", conv::loc(l), vec![conv::expr(&i.clone().into_expr()), opt(e.as_ref().map(conv::expr))]),
    Dtor::Compound(ref l, ref p, ref e) => n("Compound", conv::loc(l), vec![t("Patt", format!("{:?}", p), conv::loc(p.tracking_ref()), vec![]), conv::expr(e)]),
} }

/// Case: a program, or \x01, a left side (`a` or a pattern) and an initializer
/// with blanks at `|`.
pub fn helpers(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    acc.sample(|| src.to_string());
    caught(guarded(|| match src.strip_prefix('\x01') { Some(s) => declarators(s, acc), None => directives(src, acc) }))
}
fn declarators(s: &str, acc: &mut Acc) -> Check {
    let (l, r) = s.split_once('|').unwrap();
    let at = |a: u32, b: u32| Some(Span { start: Posn { offset: a, line: 0, column: a }, end: Posn { offset: b, line: 1, column: b } });
    let (ll, rl) = match l { "" | "-" => (None, at(5, 9)), _ => (at(1, 3), at(5, 9)) };
    let id = Id::new(Name::from("v".to_string()), ll);
    if id.location != ll || id.name != Name::from("v".to_string()) { return fail("id", format!("{:?}", id)); }
    if *id.clone().into_patt().tracking_ref() != ll || !id.clone().into_patt().is_simple() || id.clone().into_patt() != Patt::Simple(id.clone()) { return fail("id", format!("{:?}", id.clone().into_patt())); }
    if id.clone().into_expr() != Expr::Id(id.clone()) || *id.clone().into_expr().tracking_ref() != ll { return fail("id", format!("{:?}", id.clone().into_expr())); }
    if id.clone().into_dtor() != Dtor::Simple(ll, id.clone(), None) { return fail("id", format!("{:?}", id.clone().into_dtor())); }
    let compound = match l {
        "[" => Some(CompoundPatt::Arr(ll, vec![None, Some(id.clone().into_patt())], None)),
        "{" => Some(CompoundPatt::Obj(ll, vec![PropPatt::Shorthand(id.clone())])),
        "-" => Some(CompoundPatt::Arr(ll, vec![], Some(Box::new(RestPatt { location: None, patt: id.clone().into_patt() })))),
        _ => None,
    };
    let patt = || match compound { Some(ref c) => Patt::Compound(c.clone()), None => Patt::Simple(id.clone()) };
    if patt().is_simple() != compound.is_none() || *patt().tracking_ref() != ll { return fail("patt", format!("{:?} at {:?}", patt(), patt().tracking_ref())); }
    let init = expression(r).map(|mut e| { if l == "{" && r == "b" { *e.tracking_mut() = None; } else { *e.tracking_mut() = rl; } e });
    acc.states += 1;
    acc.transitions += 4;
    let whole = |e: &Expr| span(&ll, e.tracking_ref());
    let want = |e: &Expr| match compound { Some(ref c) => Dtor::Compound(whole(e), c.clone(), e.clone()), None => Dtor::Simple(whole(e), id.clone(), Some(e.clone())) };
    let same = |what: &str, a: &Dtor, b: &Dtor| if a == b { Ok(()) } else { fail(what, format!("{:?}, expected {:?}", show_dtor(a), show_dtor(b))) };
    let want_const = |e: &Expr| ConstDtor { location: whole(e), patt: patt(), value: e.clone() };
    let same_const = |what: &str, a: &ConstDtor, b: &ConstDtor| if a == b { Ok(()) } else { fail(what, format!("{:?} at {:?}, expected {:?} at {:?}", a, a.location, b, b.location)) };
    acc.outcome((l.to_string(), init.is_some()));
    match init {
        Some(ref e) => {
            same("init", &Dtor::from_init(patt(), e.clone()), &want(e))?;
            same_const("const", &ConstDtor::from_init(patt(), e.clone()), &want_const(e))?;
            match compound {
                Some(ref c) => {
                    same("compound", &Dtor::from_compound_init(c.clone(), e.clone()), &want(e))?;
                    same_const("const", &ConstDtor::from_compound_init(c.clone(), e.clone()), &want_const(e))?;
                }
                None => {
                    same("simple", &Dtor::from_simple_init(id.clone(), e.clone()), &want(e))?;
                    same_const("const", &ConstDtor::from_simple_init(id.clone(), e.clone()), &want_const(e))?;
                }
            }
            match Dtor::from_init_opt(patt(), Some(e.clone())) { Ok(d) => same("init_opt", &d, &want(e))?, Err(p) => return fail("init_opt", format!("refused {:?}", p)) }
            match ConstDtor::from_init_opt(patt(), Some(e.clone())) { Ok(d) => same_const("const", &d, &want_const(e))?, Err(p) => return fail("const", format!("refused {:?}", p)) }
        }
        None => {
            match (Dtor::from_init_opt(patt(), None), &compound) {
                (Ok(ref d), None) => same("bare", d, &Dtor::Simple(ll, id.clone(), None))?,
                (Err(ref p), Some(_)) if *p == patt() => {}
                (r, _) => return fail("bare", format!("{:?}", r)),
            }
            match ConstDtor::from_init_opt(patt(), None) { Err(ref p) if *p == patt() => {}, r => return fail("const:bare", format!("{:?}", r)) }
        }
    }
    Ok(())
}
fn directives(src: &str, acc: &mut Acc) -> Check {
    let b = match esprit::script(src) { Ok(b) => b, Err(_) => { acc.outcome("not a program"); return Ok(()); } };
    for d in &b.dirs {
        acc.states += 1;
        // The source between the quotes, exactly.
        let s = d.string.source.clone().unwrap();
        let want: String = s.chars().skip(1).take(s.chars().count() - 2).collect();
        if d.pragma() != want { return fail("pragma", format!("{:?} has the pragma {:?}", s, d.pragma())); }
        let mut bare = d.clone();
        bare.string.source = None;
        if bare.pragma() != d.string.value { return fail("pragma", format!("without source, {:?} has the pragma {:?}", d.string.value, bare.pragma())); }
        acc.outcome(want);
    }
    for i in &b.items {
        acc.states += 1;
        acc.transitions += 3;
        let node = conv::stmt_item(i);
        let want = node.kind == "Expr" && node.kids[0].kind == "String";
        let dir = i.to_directive();
        if i.is_directive() != want || dir.is_some() != want { return fail("is", format!("{} {} a directive: {:?}", node.show(), if want { "is" } else { "is not" }, dir)); }
        match i.clone().into_directive() {
            Ok(d) => {
                if !want || Some(&d) != dir.as_ref() { return fail("into", format!("{} becomes the directive {:?}", node.show(), d)); }
                if conv::loc(&d.location) != node.loc || Val::Str(d.string.value.clone()) != *node.kids[0].val.as_ref().unwrap() { return fail("into", format!("{:?} becomes the directive {:?}", node, d)); }
                match *i { StmtListItem::Stmt(Stmt::Expr(_, Expr::String(_, ref s), semi)) if s.source == d.string.source && semi == d.semi => {} _ => return fail("into", format!("{:?} becomes the directive {:?}", node, d)) }
            }
            Err(back) => if want || back != *i { return fail("into", format!("{} comes back as {:?}", node.show(), back)); },
        }
        if let StmtListItem::Stmt(ref s) = *i {
            if s.is_directive() != want || s.to_directive() != dir { return fail("stmt", format!("{}", node.show())); }
            match s.clone().into_directive() { Ok(d) => if Some(&d) != dir.as_ref() { return fail("stmt", format!("{:?}", d)); }, Err(back) => if want || back != *s { return fail("stmt", format!("{:?}", back)); } }
        }
        if i.clone().into_mod_item() != ModItem::StmtListItem(i.clone()) { return fail("mod_item", format!("{}", node.show())); }
    }
    Ok(())
}

pub fn helper_cases(run: &Run) {
    product(run, &[4, EXPRS.len()], |ix, acc| run.case(format!("\x01{}|{}", ["a", "[", "{", ""][ix[0]], EXPRS[ix[1]]).as_bytes(), acc));
    product(run, &[EXPRS.len()], |ix, acc| run.case(format!("\x01-|{}", EXPRS[ix[0]]).as_bytes(), acc));
    let all = programs();
    run.par(all.len(), |i, acc| run.case(all[i].as_bytes(), acc));
    // Directives of every spelling.
    let parts: &[&str] = &["", "a", "use strict", "\\x61", "\\n", "\\\n", "é", "😀", "\\\\", " ", "\\u{1F600}", "\\'", "\\\"", "\\0", "\u{2028}"];
    let len = run.bound(3, 4);
    run.strings(parts, 0, len, |ix, acc| {
        let s: String = ix.iter().map(|&i| parts[i]).collect();
        for q in ["'", "\""] { for t in ["{q}{s}{q}", "{q}{s}{q} ;", "a ; {q}{s}{q} ; ( {q}{s}{q} )", "( {q}{s}{q} ) ;", "{q}{s}{q}\n{q}{s}{q} . b", "{ {q}{s}{q} }"] {
            run.case(t.replace("{q}", q).replace("{s}", &s).as_bytes(), acc);
        } }
    });
    run.note("directive_parts", len as u64);
}
