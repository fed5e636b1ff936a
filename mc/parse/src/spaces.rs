//! The explored spaces of programs.
use crate::oracles::encode;
use crate::refparse::{self, Mode};
use mc_core::{Acc, Run};
use reflex::Text;

pub const MODES: &[Mode] = &[Mode::Script, Mode::Strict, Mode::Module];

/// A program may still be accepted after `src`.
fn viable(mode: Mode, src: &str) -> bool {
    match refparse::parse(&Text::new(src), mode).0 { Ok(_) => true, Err(r) => r.at_eof }
}

pub struct Space<'a> {
    pub mode: Mode,
    /// What precedes and follows the explored tokens.
    pub pre: &'a str,
    pub post: &'a [&'a str],
    pub alphabet: &'a [&'a str],
    pub depth: usize,
    /// Appended to prefixes that no continuation should save.
    pub revive: &'a [&'a str],
}

pub const REVIVE: &[&str] = &["x", ")", "]", "}", "x )", "( x )", "; x", ": x", "= x", "{ }", "x ; }"];

/// Every sequence of up to `depth` alphabet tokens all of whose proper
/// prefixes are viable; every dead sequence once (and, short of the depth
/// bound, with each revival).
pub fn explore(run: &Run, spaces: &[Space]) {
    for sp in spaces {
        let k = sp.alphabet.len();
        run.par(k * k, |job, acc| {
            let (i, j) = (job / k, job % k);
            let mut s = String::from(sp.pre);
            let first = push(&mut s, sp.alphabet[i]);
            if j == 0 { visit(run, sp, &s, 1, acc); }
            if sp.depth > 1 && viable(sp.mode, &s) {
                push(&mut s, sp.alphabet[j]);
                walk(run, sp, &mut s, 2, acc);
            }
            s.truncate(first);
        });
    }
}
fn push(s: &mut String, t: &str) -> usize {
    let n = s.len();
    if !s.is_empty() { s.push(' '); }
    s.push_str(t);
    n
}
/// Emits the node; true if viable.
fn visit(run: &Run, sp: &Space, s: &str, depth: usize, acc: &mut Acc) -> bool {
    run.case(&encode(sp.mode, s), acc);
    let mut with = |tail: &str| { let mut u = s.to_string(); push(&mut u, tail); run.case(&encode(sp.mode, &u), acc); };
    for p in sp.post { with(p); }
    let v = viable(sp.mode, s);
    if !v && depth < sp.depth { for r in sp.revive { with(r); } }
    v
}
fn walk(run: &Run, sp: &Space, s: &mut String, depth: usize, acc: &mut Acc) {
    if visit(run, sp, s, depth, acc) && depth < sp.depth {
        for t in sp.alphabet {
            let n = push(s, t);
            walk(run, sp, s, depth + 1, acc);
            s.truncate(n);
        }
    }
}

/// The product of the lists, as jobs.
pub fn product(run: &Run, sizes: &[usize], f: impl Fn(&[usize], &mut Acc) + Sync) {
    let n: usize = sizes.iter().product();
    run.par(n, |mut job, acc| {
        let mut ix = vec![0; sizes.len()];
        for d in (0..sizes.len()).rev() { ix[d] = job % sizes[d]; job /= sizes[d]; }
        f(&ix, acc);
    });
}

pub fn fill(ctx: &str, x: &str) -> String { ctx.replace('@', x) }

// ---------------------------------------------------------------- catalogues

/// Expressions, valid and not.
pub const EXPRS: &[&str] = &[
    "a", "this", "null", "true", "1", "'s'", "/r/g", "( a )", "[ ]", "{ }", "function ( ) { }",
    "[ , ]", "[ a , ]", "[ , a , , ]", "[ ... a ]", "[ a , ... b , c ]",
    "{ a }", "{ a : 1 , }", "{ 'b' : c , 1 : d }", "{ if : 1 }", "{ get }", "{ get : 1 }", "{ get a ( ) { } }", "{ set a ( b ) { } }",
    "{ set ( b ) { } }", "{ get ( ) { } }", "{ a ( b , ... c ) { } }", "{ * g ( ) { } }", "{ get 'x' ( ) { return 1 } , set 2 ( v ) { } }",
    "function f ( a , b ) { return a }", "function * ( ... r ) { }",
    "a , b", "a = b", "a += b", "a ? b : c", "a || b", "a && b", "a | b", "a ^ b", "a & b", "a == b", "a !== b", "a < b", "a in b",
    "a instanceof b", "a << b", "a >>> b", "a + b", "a - b", "a * b", "a / b", "a % b",
    "- a", "+ a", "! a", "~ a", "typeof a", "void a", "delete a . b", "++ a", "-- a . b", "a ++", "a [ b ] --", "- - a", "typeof ! a", "! a ++",
    "a . b", "a . if", "a [ b ]", "a ( )", "a ( b , ... c )", "a . b ( c ) [ d ]", "new a", "new a ( )", "new a . b ( c )", "new a ( b ) ( c )",
    "new new a ( b ) ( c )", "new new a", "new ( a ( ) ) ( )", "new a [ b ] . c", "new /r/", "new [ a ]", "new { }", "new function ( ) { }",
    "[ a , b ] = c", "{ a , b : c } = d", "[ a , [ b ] , ... c ] = d", "{ a : { b : [ c ] } } = d", "[ a . b , c [ d ] ] = e", "[ , a ] = b",
    // not expressions
    "", ")", "a b", "a +", "= a", "a = = b", "1 = a", "a ( ) = b", "a ++ ++", "++ a ++", "- a = b", "a ? b", "a . 1", "a [ ]", "( )", "( a", "new", "new . a",
    "{ a : }", "{ if }", "{ 'a' }", "{ 1 }", "{ get a }", "{ get a ( b ) { } }", "{ set a ( ) { } }", "[ a b ]", "function ( a b ) { }", "a + b = c", "a ? b : c = d",
    "{ a ( ) { } } = b", "{ get a ( ) { } } = b", "[ ... a , b ] = c", "[ a + b ] = c", "{ a : 1 } = b", "( a ) = b", "( a . b ) ++", "( a , b ) = c", "this = a", "a += b = c", "[ a ] += b",
    "... a", "if", "var a", "a ;", "( a ; b )", "a : b", "a => b", "super", "class { }", "new . target", "* a", "/ a", "a ,", ", a", "a === = b", "in", "a in", "instanceof a",
];

/// Places for an expression.
pub const EXPR_CTX: &[&str] = &[
    "( @ )", "[ @ ]", "[ a , @ , b ]", "f ( @ )", "f ( a , @ )", "f ( ... @ )", "[ ... @ ]", "a [ @ ]", "{ p : @ }",
    "@ , z", "z , @", "z = @", "z += @", "@ = z", "@ += z", "@ ? y : z", "x ? @ : z", "x ? y : @", "@ || z", "z && @", "@ + z", "z - @", "@ * z", "z / @",
    "@ < z", "z in @", "@ in z", "z == @", "z | @", "@ >> z",
    "- @", "typeof @", "delete @", "++ @", "@ ++", "-- @", "@ --", "! @", "@ . p", "@ [ p ]", "@ ( )", "@ ( p )", "new @", "new @ ( )", "new ( @ )",
    "function ( ) { return @ }", "{ get p ( ) { return @ } }", "{ m ( ) { @ } }", "@",
];

/// Statements (with holes `@` for a statement, `#` for an expression).
pub const EXPR_STMT_CTX: &[&str] = &[
    "( @ ) ;", "x = @ ;", "@ ;", "@", "var v = @ ;", "let v = @ ;", "const v = @ ;", "var u , v = @ , w ;", "if ( @ ) ;", "while ( @ ) ;", "do ; while ( @ ) ;",
    "for ( @ ; ; ) ;", "for ( ; @ ; ) ;", "for ( ; ; @ ) ;", "for ( var v = @ ; ; ) ;", "for ( let v = @ ; ; ) ;", "for ( const v = @ ; ; ) ;", "for ( v in @ ) ;",
    "for ( v of @ ) ;", "for ( @ in z ) ;", "for ( @ of z ) ;", "for ( var v in @ ) ;", "for ( let v of @ ) ;", "for ( var v = @ in z ) ;", "switch ( @ ) { }", "switch ( x ) { case @ : }",
    "throw @ ;", "function f ( ) { return @ ; }", "with ( @ ) ;", "l : @ ;", "{ @ }", "if ( x ) @ ; else @", "for ( var v = ( @ ) in z ) ;", "for ( u , @ ; ; ) ;",
];

pub const STMTS: &[&str] = &[
    ";", "{ }", "a ;", "a", "var a ;", "var a = 1 , b ;", "let a ;", "let a = 1 , b ;", "const a = 1 ;", "const a = 1 , b = 2 ;", "let", "let ;", "let = 1 ;", "let . a ;", "let ( a ) ;",
    "if ( a ) b ;", "if ( a ) b ; else c ;", "if ( a ) if ( b ) c ; else d ;", "while ( a ) b ;", "while ( a ) break ;", "while ( a ) { continue }", "do a ; while ( b ) ;", "do a ; while ( b ) c ;", "do { } while ( a )",
    "for ( ; ; ) ;", "for ( ; ; ) { break }", "for ( a ; b ; c ) d ;", "for ( var a ; ; ) ;", "for ( var a = 1 , b ; c ; d ) ;", "for ( let a = 1 , b = 2 ; ; ) ;", "for ( const a = 1 , b = 2 ; ; ) ;", "for ( let ; ; ) ;", "for ( let = 1 ; ; ) ;",
    "for ( a in b ) c ;", "for ( a . b in c ) ;", "for ( var a in b ) ;", "for ( let a in b ) ;", "for ( const a in b ) ;", "for ( var a = 1 in b ) ;", "for ( [ a ] in b ) ;", "for ( a in b , c ) ;", "for ( let in b ) ;",
    "for ( a of b ) c ;", "for ( var a of b ) ;", "for ( let a of b ) ;", "for ( const a of b ) ;", "for ( { a } of b ) ;", "for ( of of of ) ;", "for ( var of of of ) ;", "for ( var of ; ; ) ;", "for ( let of of a ) ;", "for ( let of = 1 ; ; ) ;",
    "function f ( ) { }", "function f ( a , b ) { return a ; }", "function f ( ... a ) { }", "function * g ( ) { }", "function f ( ) { function g ( ) { return } }", "function f ( a , ) { }",
    "switch ( a ) { }", "switch ( a ) { case 1 : b ; case 2 : break ; default : c ; }", "switch ( a ) { default : case 1 : }", "switch ( a ) { case 1 : var b ; function f ( ) { } let c ; }",
    "throw a ;", "try { } catch ( e ) { }", "try { } finally { }", "try { a } catch ( e ) { b } finally { c }", "debugger ;", "with ( a ) b ;", "l : a ;", "l : m : a ;", "l : while ( a ) break l ;", "l : while ( a ) { continue l ; }", "l : { break l ; }",
    "l : for ( ; ; ) { m : for ( ; ; ) continue l ; }", "yield : a", "async : b", "await ;", "'d' ; a", "'d' + a ;", "'d' \n a", "async ;", "get ( a ) ;", "of ;",
    // not statements
    "if", "if a", "if ( a )", "else", "if ( a ) ; else", "while ( a", "while ( )", "do a while", "do ; while ( )", "for ( ; ) ;", "for ( a ; b ) ;", "for ( var ) ;", "for ( var a b ) ;", "for ( const a ; ; ) ;", "for ( const a = 1 , b ; ; ) ;", "for ( 1 in a ) ;", "for ( a + b of c ) ;", "for ( a of b , c ) ;",
    "for ( var a , b in c ) ;", "for ( let a = 1 in b ) ;", "for ( let a = 1 of b ) ;", "for ( var a = 1 of b ) ;", "for ( var a in b ; ; ) ;", "for ( a = 1 in b ) ;", "for ( a , b in c ) ;", "for ( const in a ) ;", "for ( const ; ; ) ;", "for ( let . a of b ) ;", "for ( let of a ) ;", "for ( let [ a ] of b ) ;", "for ( a in ) ;", "for ( in b ) ;",
    "var", "var ;", "var 1 ;", "var a = ;", "var a b ;", "var a , ;", "var if ;", "const a ;", "const a = 1 , b ;", "const ;", "let a b ;", "let 1", "function ( ) { }", "function f", "function f ( ) ;", "function f ( 1 ) { }", "function f ( ... a , b ) { }", "function f ( , ) { }", "function if ( ) { }",
    "switch ( a ) { b }", "switch ( a ) { case : }", "switch ( a ) { default : default : }", "switch ( a ) { case 1 b }", "switch a { }", "try { }", "try a ; catch ( e ) { }", "try { } catch { }", "try { } catch ( 1 ) { }", "try { } catch ( e ) a", "catch ( e ) { }", "finally { }", "case 1 :", "default :",
    "throw ;", "throw", "throw \n a", "return ;", "return a", "break ;", "continue ;", "break l ;", "continue l ;", "l : continue l ;", "l : { continue l ; }", "l : l : a", "l : { l : a }", "l :", "l : function f ( ) { }", "l : let a", "l : const a = 1", "1 : a", "if : a",
    "{", "}", "{ a", "( a ) : b", "a b", "debugger a", "import 'a' ;", "export var a ;", "enum a", "class A { }", "new . target", "\\u0061 ;", "if ( a ) function f ( ) { }", "if ( a ) let b", "if ( a ) let \n b", "while ( a ) const b = 1", "for ( ; ; ) let [ a ] = b", "var [ a ] = b ;", "let { a } = b ;", "@",
];

/// Places for a statement.
pub const STMT_CTX: &[&str] = &[
    "@", "{ @ }", "a ; @", "@ a ;", "@ \n a", "if ( a ) @", "if ( a ) @ else b ;", "if ( a ) ; else @", "while ( a ) @", "do @ while ( a ) ;", "do @ while ( a ) b", "for ( ; ; ) @", "for ( a in b ) @", "for ( let a of b ) @",
    "l : @", "l : m : @", "l : while ( a ) @", "l : { @ }", "function f ( ) { @ }", "( function ( ) { @ } )", "x = { m ( ) { @ } , get p ( ) { @ } , set p ( v ) { @ } } ;", "function * g ( ) { @ }",
    "switch ( a ) { case b : @ }", "switch ( a ) { default : @ case b : @ }", "try { @ } finally { }", "try { } catch ( e ) { @ }", "try { } finally { @ }", "with ( a ) @", "while ( a ) { function f ( ) { @ } }", "l : while ( a ) { function f ( ) { @ } }", "function f ( ) { while ( a ) @ }", "{ @ } @",
    "switch ( a ) { case b : { @ } }", "'d' ; @", "function f ( ) { 'd' ; @ }", "while ( a ) switch ( b ) { case c : @ }", "l : for ( ; ; ) { switch ( b ) { default : @ } }",
];

pub const BINARY: &[&str] = &["||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "instanceof", "in", "<<", ">>", ">>>", "+", "-", "*", "/", "%"];

// ---------------------------------------------------------------- P02 expressions

pub fn expressions(run: &Run) {
    // Every operator sequence.
    let ops: Vec<&str> = BINARY.iter().cloned().chain(["=", "+=", ",", "? x :"]).collect();
    let len = run.bound(3, 4);
    let operands: &[&[&str]] = &[&["a", "b", "c", "d", "e"], &["- a", "b . p", "! c", "d ( )", "typeof e"], &["a . b", "c ++", "( d , d )", "new e", "f"]];
    for os in operands {
        for n in 1..=len {
            if n == 4 && os[0] != "a" { continue; }
            product(run, &vec![ops.len(); n], |ix, acc| {
                let mut s = format!("z = {}", os[0]);
                for (i, &o) in ix.iter().enumerate() { s += &format!(" {} {}", ops[o], os[i + 1]); }
                run.case(&encode(Mode::Script, &s), acc);
            });
        }
    }
    chains(run, &|s, acc| run.case(&encode(Mode::Script, &s), acc));
    // Every expression in every place, two places deep.
    product(run, &[EXPR_CTX.len(), EXPRS.len()], |ix, acc| {
        let e = fill(EXPR_CTX[ix[0]], EXPRS[ix[1]]);
        for outer in EXPR_CTX { run.case(&encode(Mode::Script, &format!("( {} )", fill(outer, &e))), acc); }
        for outer in EXPR_STMT_CTX { run.case(&encode(Mode::Script, &fill(outer, &e)), acc); }
        if !run.quick() {
            for o in EXPR_CTX { for p in EXPR_CTX { run.case(&encode(Mode::Script, &format!("x = {}", fill(o, &fill(p, &e)))), acc); } }
        }
    });
    let alpha: &[&str] = &["a", "1", "'s'", "/r/", "this", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "*=", "||", "+", "*", "in", "instanceof", "<", "==", "++", "!", "typeof", "new", "function", "...", "get", "target"];
    let small: &[&str] = &["a", "(", ")", "[", "]", ".", "new", "++", "="];
    let lists: &[&str] = &["a", "{", "}", "[", "]", ",", "...", ":", "=", "get", "(", ")"];
    let ops: &[&str] = &["a", "?", ":", ",", "=", "+", "*", "in", "(", ")", "-", "++"];
    let d = run.bound(4, 5);
    let d2 = run.bound(7, 8);
    let d3 = run.bound(6, 7);
    explore(run, &[
        Space { mode: Mode::Script, pre: "x = ", post: &[";"], alphabet: alpha, depth: d, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: alpha, depth: d, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: small, depth: d2, revive: REVIVE },
        Space { mode: Mode::Script, pre: "x = ", post: &["]", "}", "] = a", "} = a"], alphabet: lists, depth: d3, revive: REVIVE },
        Space { mode: Mode::Script, pre: "for (", post: &["; ; ) ;", "of a ) ;", ") ;"], alphabet: ops, depth: d3, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: ops, depth: d3, revive: REVIVE },
    ]);
    run.note("operator_sequence_length", len as u64);
    run.note("token_depth", d as u64);
    run.note("small_alphabet_token_depth", d2 as u64);
}

/// Every sequence of accesses and calls, under every number of `new`s.
pub fn chains(run: &Run, layouts: &(dyn Fn(String, &mut Acc) + Sync)) {
    let pieces: &[&str] = &[". b", "[ c ]", "( )", "( d , ... e )"];
    let bases: &[&str] = &["a", "( a )", "( a ( ) )", "function ( ) { }", "/r/", "[ a ]"];
    let (len, news) = (run.bound(5, 7), 4);
    for n in 0..=len {
        product(run, &vec![pieces.len(); n], |ix, acc| {
            let tail: String = ix.iter().map(|&p| format!(" {}", pieces[p])).collect();
            for b in bases { for k in 0..=news {
                if k > n + 2 { continue; }
                let e = format!("{}{}{}", "new ".repeat(k), b, tail);
                layouts(format!("x = {}", e), acc);
                if n <= 3 { for c in ["@ ++", "@ = z", "delete @ / z", "for ( @ in z ) ;", "[ @ ] = z", "@ instanceof @", "f ( @ , @ )"] { layouts(fill(c, &e), acc); } }
            } }
        });
    }
    run.note("member_chain_length", len as u64);
}

/// Places of which some let an `in` be an operator in the head of a `for`.
pub const INNER: &[&str] = &[
    "function ( ) { var y = @ ; }", "function ( ) { @ }", "function ( ) { for ( @ ; ; ) ; }", "function ( ) { for ( var y = @ ; ; ) ; }", "function ( ) { for ( y in @ ) ; }", "function ( ) { for ( ; @ ; ) ; }", "function ( ) { if ( @ ) ; }",
    "function ( ) { switch ( @ ) { case @ : } }", "function ( ) { throw @ }", "function ( ) { let y = @ , z = @ }", "function ( ) { const y = @ }", "function ( ) { function f ( ) { @ } }", "function ( ) { do ; while ( @ ) }",
    "{ set p ( v ) { @ } }", "{ * g ( ) { @ } }", "{ 'q' : @ , 1 : @ }", "{ get p ( ) { var y = @ } , q : @ }", "[ , @ , ... @ ]", "[ @ ] = z", "{ p : z [ @ ] } = z", "x [ @ ] = z", "new x ( @ , ... @ )", "new x [ @ ]", "( @ , @ )", "( @ ) in z",
];
pub const HEADS: &[&str] = &[
    "for ( @ ; ; ) ;", "for ( x = @ ; ; ) ;", "for ( var x = @ ; ; ) ;", "for ( let x = @ ; ; ) ;", "for ( const x = @ , y = @ ; ; ) ;", "for ( var x = @ in z ) ;", "for ( var x , y = @ ; @ ; @ ) @ ;", "for ( @ in @ ) ;", "for ( @ of @ ) ;",
    "for ( var x of @ ) ;", "for ( let x in @ ) ;", "for ( z , @ ; ; ) ;", "for ( z ? @ : @ ; ; ) ;", "for ( ; ; ) for ( @ ; ; ) ;", "for ( function ( ) { } ; @ ; ) ;",
];
fn heads(run: &Run, layouts: &(dyn Fn(String, &mut Acc) + Sync)) {
    let wraps: Vec<&str> = EXPR_CTX.iter().chain(INNER).cloned().collect();
    let leaves = ["a in b", "a", "a = b in c"];
    product(run, &[wraps.len(), wraps.len()], |ix, acc| {
        for leaf in leaves {
            let one = fill(wraps[ix[0]], leaf);
            let two = fill(wraps[ix[1]], &one);
            for h in HEADS {
                if ix[1] == 0 { layouts(fill(h, &one), acc); }
                layouts(fill(h, &two), acc);
                if !run.quick() { for w in &wraps { layouts(fill(h, &fill(w, &two)), acc); } }
            }
        }
    });
}

/// Words that are names in some places only.
pub const WORDS: &[&str] = &["of", "let", "get", "set", "static", "yield", "await", "async", "target", "eval", "arguments", "undefined", "implements", "use"];

// ---------------------------------------------------------------- P03 statements

pub fn statements(run: &Run) {
    heads(run, &|s, acc| run.case(&encode(Mode::Script, &s), acc));
    // Every statement with another name in place of `a`, and of `b`.
    product(run, &[STMTS.len(), WORDS.len(), 2], |ix, acc| {
        let from = ["a", "b"][ix[2]];
        let s: Vec<&str> = STMTS[ix[0]].split(' ').map(|t| if t == from { WORDS[ix[1]] } else { t }).collect();
        for c in STMT_CTX { run.case(&encode(Mode::Script, &fill(c, &s.join(" "))), acc); }
    });
    sizes(run, &|s, acc| run.case(&encode(Mode::Script, &s), acc));
    product(run, &[STMT_CTX.len(), STMTS.len()], |ix, acc| {
        let s = fill(STMT_CTX[ix[0]], STMTS[ix[1]]);
        for outer in STMT_CTX { run.case(&encode(Mode::Script, &fill(outer, &s)), acc); }
        if !run.quick() { for o in STMT_CTX { for p in STMT_CTX { run.case(&encode(Mode::Script, &fill(o, &fill(p, &s))), acc); } } }
    });
    product(run, &[STMTS.len(), STMTS.len()], |ix, acc| {
        for c in STMT_CTX { run.case(&encode(Mode::Script, &fill(c, &format!("{} {}", STMTS[ix[0]], STMTS[ix[1]]))), acc); }
    });
    let words: &[&str] = &["a", "(", ")", "{", "}", ";", ",", ":", "=", "if", "else", "while", "do", "for", "in", "of", "var", "let", "const", "function", "*", "switch", "case", "default", "try", "catch", "finally", "throw", "debugger", "with", "break", "return", "..."];
    let fors: &[&str] = &["a", "(", ")", ";", ",", "=", "var", "let", "const", "in", "of", "[", "]", "."];
    let switches: &[&str] = &["case", "default", ":", "a", "break", ";", "{", "}", "function"];
    let funs: &[&str] = &["function", "*", "a", "(", ")", "{", "}", ",", "...", "return"];
    let trys: &[&str] = &["try", "{", "}", "catch", "(", "a", ")", "finally", ";"];
    let (d, df, dg) = (run.bound(5, 6), run.bound(6, 7), run.bound(8, 9));
    explore(run, &[
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: words, depth: d, revive: REVIVE },
        Space { mode: Mode::Script, pre: "for (", post: &[") ;", "; ) ;"], alphabet: fors, depth: df, revive: REVIVE },
        Space { mode: Mode::Script, pre: "switch ( x ) {", post: &["}"], alphabet: switches, depth: df, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &["}"], alphabet: funs, depth: dg, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: trys, depth: dg + 1, revive: REVIVE },
    ]);
    run.note("token_depth", d as u64);
    run.note("nesting_depth", run.bound(2, 3) as u64);
}

// ---------------------------------------------------------------- P04 semicolons

pub const GAPS: &[&str] = &[" ", "\n", " ; ", " ;\n", "/*\n*/", "//c\n", "\u{2028}", "/**/", "\n;"];
const BARE: &[&str] = &[
    "a", "a ++", "++ a", "a + b", "( a )", "[ a ]", "f ( )", "/r/", "'s'", "1", "function f ( ) { }", "x = function ( ) { }", "{ }", "{ a }", "var a", "var a = b", "let a", "let a = b", "const a = b", "do a ; while ( b )", "do ; while ( b )",
    "if ( a ) b", "if ( a ) b ; else c", "while ( a ) b", "for ( ; ; ) a", "break", "continue", "break l", "continue l", "return", "return a", "throw a", "debugger", "m : a", "try { } finally { }", "switch ( a ) { }", "a . b", "a [ b ]", "-- a", "+ a", "- a", "* a", "/ b / c", "? a : b",
    ". a", ", a", "in a", "instanceof a", "= a", "=> a", "else a", "while ( a )", "typeof a", "new a", "!a", "~a", "... a", "let", "of", "get", "x = { get\na ( ) { } }", "a\n++\nb", "a\n?\nb\n:\nc", "this", "null", "\"d\"", ") a", "] a", ": a",
];

pub fn semicolons(run: &Run) {
    // Every pair of statements without their semicolons, with every separator, everywhere.
    let places: &[&str] = &["@", "{ @ }", "while ( x ) { @ }", "function g ( ) { @ }", "l : while ( x ) { @ }", "function g ( ) { l : for ( ; ; ) { @ } }", "switch ( x ) { default : @ }", "if ( x ) @"];
    product(run, &[BARE.len(), BARE.len()], |ix, acc| {
        for g in GAPS { for p in places {
            run.case(&encode(Mode::Script, &fill(p, &format!("{}{}{}", BARE[ix[0]], g, BARE[ix[1]]))), acc);
        } }
    });
    // A line break in every gap (and every pair of gaps) of every statement.
    let all: Vec<&str> = STMTS.iter().chain(BARE).cloned().collect();
    product(run, &[all.len(), 5], |ix, acc| {
        let place = ["@", "function g ( ) { l : while ( x ) { @ } }", "@ \n b", "{ @ }", "do @ while ( x ) b"][ix[1]];
        let s = fill(place, all[ix[0]]);
        let toks: Vec<&str> = s.split(' ').filter(|t| !t.is_empty()).collect();
        for i in 0..toks.len() { for j in i..toks.len() {
            let t: String = toks.iter().enumerate().map(|(k, t)| format!("{}{}", t, if k == i || k == j { "\n" } else { " " })).collect();
            run.case(&encode(Mode::Script, &t), acc);
            // ... and without the semicolons there.
            if toks[i] == ";" || toks[j] == ";" {
                let t: String = toks.iter().enumerate().map(|(k, t)| if (k == i || k == j) && *t == ";" { "\n".into() } else { format!("{} ", t) }).collect();
                run.case(&encode(Mode::Script, &t), acc);
            }
        } }
    });
    let a: &[&str] = &["a", "\n", ";", "++", "(", ")", "{", "}", "return", "do", "while", "throw", "var", "let", "=", "+", "[", "]", "/", "if", "else", "function", "break"];
    let b: &[&str] = &["a", "\n", ";", "++", "--", "{", "}", "+", "("];
    let c: &[&str] = &["break", "continue", "return", "throw", "l", "\n", ";", "}", "{", "debugger", "let", "var", "do", "while ( x )"];
    let (da, db, dc) = (run.bound(5, 6), run.bound(7, 8), run.bound(5, 6));
    explore(run, &[
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: a, depth: da, revive: REVIVE },
        Space { mode: Mode::Script, pre: "", post: &[], alphabet: b, depth: db, revive: REVIVE },
        Space { mode: Mode::Script, pre: "function f ( ) { l : while ( x ) {", post: &["} }"], alphabet: c, depth: dc, revive: REVIVE },
        Space { mode: Mode::Script, pre: "function f ( ) { l : while ( x ) {", post: &["} }"], alphabet: b, depth: dc, revive: REVIVE },
    ]);
    run.note("token_depth", da as u64);
}

// ---------------------------------------------------------------- P05 slashes

pub fn slashes(run: &Run) {
    let big: &[&str] = &["a", "/", "/=", "/b/", "/g", "=", "(", ")", "[", "]", "{", "}", ";", ",", ":", "?", "++", "!", "+", "typeof", "in", "new", "return", "if", "else", "function", "case", "this", "1", "'s'", "...", "\n", "do", "while", "throw", ".", "of", "let", "var", "get"];
    let small: &[&str] = &["a", "/", "/=", "(", ")", "{", "}", "[", "]", "++", "\n"];
    let (d, e) = (run.bound(4, 5), run.bound(6, 8));
    explore(run, &[
        Space { mode: Mode::Script, pre: "", post: &["/ g", "/ b / g"], alphabet: big, depth: d, revive: &["/ g", "/ b / g"] },
        Space { mode: Mode::Script, pre: "function f ( ) { switch ( a ) {", post: &["/ b / g } }", "/ g } }"], alphabet: big, depth: d, revive: &["/ g } }"] },
        Space { mode: Mode::Script, pre: "x = ", post: &["/ g", "/ b / g"], alphabet: small, depth: e, revive: &["/ g", "/ b / g"] },
    ]);
    // A slash at the start of every token of every statement and expression.
    let mut all: Vec<String> = STMTS.iter().map(|s| s.to_string()).collect();
    for c in EXPR_STMT_CTX { for e in EXPRS { all.push(fill(c, e)); } }
    product(run, &[all.len()], |ix, acc| {
        let toks: Vec<&str> = all[ix[0]].split(' ').filter(|t| !t.is_empty()).collect();
        for i in 0..=toks.len() {
            for ins in ["/ b / g", "/ b /g", "/ b", "/= b", "/= b / g", "/b/ . c", "\n/ b / g"] {
                let (l, r) = toks.split_at(i);
                run.case(&encode(Mode::Script, &format!("{} {} {}", l.join(" "), ins, r.join(" "))), acc);
                if !r.is_empty() { run.case(&encode(Mode::Script, &format!("{} {} {}", l.join(" "), ins, r[1..].join(" "))), acc); }
            }
        }
    });
    run.note("token_depth", d as u64);
}

// ---------------------------------------------------------------- P10 locations

/// Spreads the tokens over lines and columns in several ways.
fn layouts(s: &str) -> Vec<String> {
    let toks: Vec<&str> = s.split(' ').filter(|t| !t.is_empty()).collect();
    let join = |f: &dyn Fn(usize) -> &'static str| toks.iter().enumerate().map(|(i, t)| format!("{}{}", f(i), t)).collect::<String>();
    vec![
        join(&|_| " "),
        format!("{}  ", join(&|i| if i % 3 == 1 { "\n  " } else { "  " })),
        format!("{} // end\n", join(&|i| ["/*é😀*/", " ", "\r\n", "/*\n*/ "][i % 4])),
    ]
}

pub fn spans(run: &Run) {
    let both = |s: String, acc: &mut Acc| for l in layouts(&s) { run.case(&encode(Mode::Script, &l), acc); };
    product(run, &[EXPR_CTX.len(), EXPRS.len()], |ix, acc| {
        let e = fill(EXPR_CTX[ix[0]], EXPRS[ix[1]]);
        for outer in EXPR_CTX { both(format!("( {} )", fill(outer, &e)), acc); }
        for outer in EXPR_STMT_CTX { both(fill(outer, &e), acc); }
    });
    product(run, &[STMT_CTX.len(), STMTS.len()], |ix, acc| {
        let s = fill(STMT_CTX[ix[0]], STMTS[ix[1]]);
        for outer in STMT_CTX { both(fill(outer, &s), acc); }
    });
    sizes(run, &both);
}

// ---------------------------------------------------------------- sizes

/// (before, repeated, between, after): lists and nests.
const LISTS: &[(&str, &str, &str, &str)] = &[
    ("", "'d' ;", " ", ""), ("", "'d'", "\n", ""), ("", "'d' ;", " ", " a ;"), ("function f ( ) { ", "'d' ;", " ", " }"), ("function f ( ) { ", "'d' ;", " ", " a ; }"), ("x = { m ( ) { ", "'d' ;", " ", " } }"), ("a ; ", "'d' ;", " ", ""),
    ("x = [ ", "a", " , ", " ]"), ("x = [ ", "", " , ", " ]"), ("x = [ ", "... a", " , ", " ] ;"), ("f ( ", "a", " , ", " ) ;"), ("new f ( ", "... a", " , ", " )"), ("x = { ", "p : a", " , ", " }"), ("x = { ", "p", " , ", " , }"), ("x = { ", "get p ( ) { }", " , ", " }"),
    ("var ", "a", " , ", " ;"), ("let ", "a = b", " , ", ""), ("const ", "a = b", " , ", ""), ("function f ( ", "a", " , ", " ) { }"), ("function f ( ", "a", " , ", " , ... r ) { }"), ("", "a", " , ", " ;"), ("", "a ;", " ", ""), ("", "a", "\n", ""), ("'d' ;", "'e' ;", " ", "a"), ("", "{ }", " ", ""), ("", ";", " ", ""),
    ("switch ( a ) { ", "case b : c ;", " ", " }"), ("switch ( a ) { default : ", "case b :", " ", " }"), ("", "function f ( ) { }", " ", ""), ("", "if ( a ) b ; else", " ", " ;"), ("[ ", "a", " , ", " ] = b"), ("( { ", "p : a", " , ", " } = b )"), ("for ( var ", "a = b", " , ", " ; ; ) ;"), ("for ( ", "a", " , ", " ; ; ) ;"),
    ("x = ", "a", " + ", ""), ("x = ", "a", " || ", ""), ("x = ", "a", " && ", " || b"), ("x = ", "a", " in ", ""), ("x = ", "a", " * b + ", ""), ("x = ", "a", " == b < c + d * ", ""), ("x = ", "a", " * b + c << d < e == f & g ^ h | i && j || ", ""), ("", "a", " = ", ""), ("", "a", " += ", ""), ("x = ", "a", " ? b : ", ""),
    ("x = a", ". b", " ", ""), ("x = a", "[ b ]", " ", ""), ("x = a", "( b )", " ", ""), ("x = a", ". b ( c )", " ", ". d"), ("x = ", "- ", " ", " a"), ("x = ", "typeof", " ", " a"), ("x = ", "new", " ", " a"),
];
const NESTS: &[(&str, &str, &str)] = &[
    ("( ", "a", " )"), ("[ ", "a", " ]"), ("[ a , ", "b", " , c ]"), ("f ( ", "a", " )"), ("a [ ", "b", " ]"), ("x = { p : ", "a", " }"), ("( function ( ) { ", ";", " } )"), ("x = { m ( ) { ", ";", " } }"), ("a ? ", "b", " : c"), ("new ( ", "a", " )"), ("new f ( ", "a", " )"), ("a = ", "b", ""), ("a + ( b * ", "c", " )"), ("- ( ", "a", " )"),
    ("{ ", ";", " }"), ("if ( a ) ", "b ;", ""), ("if ( a ) ", "b ;", " else c ;"), ("while ( a ) ", ";", ""), ("do ", ";", " while ( a ) ;"), ("for ( ; ; ) ", ";", ""), ("with ( a ) ", ";", ""), ("function f ( ) { ", ";", " }"), ("try { ", "", " } finally { }"), ("try { } catch ( e ) { ", "", " }"), ("switch ( a ) { case b : ", ";", " }"), ("while ( a ) { ", "break ;", " }"), ("l : while ( a ) { function f ( ) { ", "", " } break l ; }"),
];

/// Every list and nest in every size.
pub fn sizes(run: &Run, layouts: &(dyn Fn(String, &mut Acc) + Sync)) {
    let (flat, deep) = (run.bound(70, 300), run.bound(40, 120));
    let big = run.bound(8, 10);
    let mut ns: Vec<usize> = (0..=flat).collect();
    for k in 7..=big { for d in [-1i64, 0, 1] { ns.push(((1i64 << k) + d) as usize); } }
    product(run, &[LISTS.len(), ns.len()], |ix, acc| {
        let (a, x, sep, b) = LISTS[ix[0]];
        layouts(format!("{}{}{}", a, vec![x; ns[ix[1]]].join(sep), b), acc);
    });
    product(run, &[NESTS.len(), NESTS.len()], |ix, acc| {
        let (x, y) = (NESTS[ix[0]], NESTS[ix[1]]);
        if ix[0] == ix[1] {
            for d in 0..=deep { layouts(format!("{}{}{}", x.0.repeat(d), x.1, x.2.repeat(d)), acc); }
        } else {
            for d in [1, 2, 3, 8, 17] { layouts(format!("{}{}{}", format!("{}{}", x.0, y.0).repeat(d), y.1, format!("{}{}", y.2, x.2).repeat(d)), acc); }
        }
    });
    // Labels, all different, and jumps to each.
    let ls = run.bound(20, 60);
    run.par(ls, |n, acc| {
        let n = n + 1;
        let open: String = (0..n).map(|i| format!("l{} : ", i)).collect();
        for k in 0..=n { for j in ["break", "continue"] {
            layouts(format!("{}while ( a ) {} l{} ;", open, j, k), acc);
            layouts(format!("{}{{ {} l{} ; }}", (0..n).map(|i| format!("l{} : while ( a ) ", i)).collect::<String>(), j, k), acc);
            layouts(format!("{}{{ while ( a ) {} l{} ; }}", open, j, k), acc);
        } }
        for k in 0..n { layouts(format!("{}l{} : ;", open, k), acc); layouts(format!("{} {{ while ( a ) l{} : ; }}", open, k), acc); }
    });
    run.note("list_size", (1 << big) + 1);
    run.note("nesting", deep as u64);
}
