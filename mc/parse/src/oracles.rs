//! The oracles: each runs the implementation on one case and compares it with
//! the reference, or with another run of itself.
//!
//! A case is one letter for the entry point (`S` script, `T` strict, `M`
//! module), then the program text.
use crate::conv;
use crate::refparse::{self, Mode, Reject, Why};
use crate::tree::Node;
use esprit::error::Error;
use mc_core::{guarded, Acc, Fail};
use reflex::Text;

pub type Check = Result<(), Fail>;

pub fn encode(mode: Mode, src: &str) -> Vec<u8> {
    let mut v = vec![match mode { Mode::Script => b'S', Mode::Strict => b'T', Mode::Module => b'M' }];
    v.extend_from_slice(src.as_bytes());
    v
}
pub fn decode(case: &[u8]) -> (Mode, &str) {
    let m = match case[0] { b'T' => Mode::Strict, b'M' => Mode::Module, _ => Mode::Script };
    (m, std::str::from_utf8(&case[1..]).expect("case text"))
}

pub fn implementation(mode: Mode, src: &str) -> Result<Result<Node, Error>, Fail> {
    guarded(|| match mode {
        Mode::Script => esprit::script(src).map(|b| conv::script(&b)),
        Mode::Strict => esprit::strict(src).map(|b| conv::script(&b)),
        Mode::Module => esprit::module(src).map(|b| conv::module(&b)),
    }).map_err(|p| Fail::new("panic", format!("panicked: {}", p)))
}

/// The error's variant.
pub fn variant(e: &Error) -> &'static str {
    match *e {
        Error::UnexpectedToken(_) => "UnexpectedToken",
        Error::FailedASI(_) => "FailedASI",
        Error::LexError(_) => "LexError",
        Error::TopLevelReturn(_) => "TopLevelReturn",
        Error::IllegalBreak(_) => "IllegalBreak",
        Error::IllegalContinue(_) => "IllegalContinue",
        Error::InvalidLabel(_) => "InvalidLabel",
        Error::InvalidLabelType(_) => "InvalidLabelType",
        Error::ContextualKeyword(..) => "ContextualKeyword",
        Error::IllegalStrictBinding(..) => "IllegalStrictBinding",
        Error::UnexpectedDirective(..) => "UnexpectedDirective",
        Error::UnexpectedModule(_) => "UnexpectedModule",
        Error::ImportInScript(_) => "ImportInScript",
        Error::ExportInScript(_) => "ExportInScript",
        Error::ForOfLetExpr(_) => "ForOfLetExpr",
        Error::DuplicateDefault(_) => "DuplicateDefault",
        Error::StrictWith(_) => "StrictWith",
        Error::ThrowArgument(_) => "ThrowArgument",
        Error::OrphanTry(_) => "OrphanTry",
        Error::InvalidLHS(..) => "InvalidLHS",
        Error::UnsupportedFeature(_) => "UnsupportedFeature",
        Error::CompoundParamWithUseStrict(_) => "CompoundParamWithUseStrict",
        #[allow(unreachable_patterns)] _ => "unknown",
    }
}

/// What the error says: a fixed phrase by its kind, or what the tokenizer's error
/// (or the cover grammar's) says that it carries and names as its cause.
#[allow(deprecated)]
pub fn message(e: &Error) -> Result<(), String> {
    use std::error::Error as StdError;
    let want = match *e {
        Error::LexError(ref l) => l.description(),
        Error::InvalidLHS(_, easter::cover::Error::InvalidAssignTarget(_)) => "invalid assignment pattern",
        Error::InvalidLHS(_, easter::cover::Error::InvalidPropPatt(_)) => "invalid object property in assignment pattern",
        _ => match variant(e) {
            "UnexpectedToken" => "unexpected token",
            "FailedASI" => "failed ASI",
            "TopLevelReturn" => "top level return",
            "IllegalBreak" => "illegal break",
            "IllegalContinue" => "illegal continue",
            "InvalidLabel" => "invalid label",
            "InvalidLabelType" => "invalid label type",
            "ContextualKeyword" => "contextual keyword",
            "IllegalStrictBinding" => "illegal strict binding",
            "UnexpectedDirective" => "unexpected directive",
            "UnexpectedModule" => "unexpected module",
            "ImportInScript" => "import in script",
            "ExportInScript" => "export in script",
            "ForOfLetExpr" => "for-of-let expr",
            "DuplicateDefault" => "duplicate default",
            "StrictWith" => "strict with",
            "ThrowArgument" => "throw argument",
            "OrphanTry" => "orphan try",
            "CompoundParamWithUseStrict" => "compound param with use strict",
            _ => "unsupported feature",
        },
    };
    if e.description() != want || e.to_string() != want {
        return Err(format!("{:?} says {:?} (described as {:?}); expected {:?}", e, e.to_string(), e.description(), want));
    }
    let cause = match *e {
        Error::LexError(ref l) => Some(l.to_string()),
        Error::InvalidLHS(_, ref c) => Some(c.to_string()),
        _ => None,
    };
    if e.cause().map(|c| c.to_string()) != cause { return Err(format!("{:?}: its cause is {:?}; expected {:?}", e, e.cause().map(|c| c.to_string()), cause)); }
    Ok(())
}

/// Where the construct begins that the error blames.
fn blame(e: &Error) -> Option<reflex::Pos> {
    Some(crate::canon::pos(match *e {
        Error::UnexpectedToken(ref t) | Error::FailedASI(ref t) | Error::IllegalBreak(ref t) | Error::IllegalContinue(ref t)
        | Error::DuplicateDefault(ref t) | Error::StrictWith(ref t) | Error::ThrowArgument(ref t) | Error::OrphanTry(ref t) => t.location.start,
        Error::TopLevelReturn(s) | Error::ContextualKeyword(s, _) | Error::IllegalStrictBinding(s, _) | Error::ForOfLetExpr(s) => s.start,
        Error::InvalidLabel(ref i) | Error::InvalidLabelType(ref i) => match i.location { Some(l) => l.start, None => return None },
        _ => return None,
    }))
}

/// The variant the reference's rejection corresponds to.
pub fn expected(w: &Why) -> &'static str {
    match *w {
        Why::Lex(_) => "LexError",
        Why::Token => "UnexpectedToken",
        Why::Asi => "FailedASI",
        Why::Early(e) => e,
        Why::Lhs => "InvalidLHS",
        Why::Unsupported(_) => "unsupported",
    }
}

#[derive(Clone, Copy)]
pub struct Aspect { pub errors: bool, pub locations: bool, pub cover: bool }
pub const TREE: Aspect = Aspect { errors: false, locations: false, cover: false };
const COVER: Aspect = Aspect { cover: true, ..TREE };
const ERRORS: Aspect = Aspect { errors: true, ..TREE };

/// What the reference leaves open: syntax outside the supported grammar that
/// the implementation may take as it likes.
fn open(r: &Reject, a: Aspect) -> bool {
    matches!(r.why, Why::Unsupported("yield")) || (!a.cover && matches!(r.why, Why::Early("ParenthesizedPattern") | Why::Early("CommaAfterRest")))
}

pub fn compare(mode: Mode, src: &str, acc: &mut Acc, a: Aspect) -> Check {
    let text = Text::new(src);
    let (want, tokens) = refparse::parse(&text, mode);
    acc.transitions += tokens;
    acc.states += 1;
    let got = implementation(mode, src)?;
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            acc.outcome(w.show());
            if let Some((key, d)) = w.diff(g) { return Err(Fail::new(&format!("tree:{}", key), d)); }
            if a.locations { locations(w, g, src)?; }
        }
        (Err(r), _) if open(r, a) => acc.outcome("open"),
        (Err(r), Ok(g)) => {
            return Err(Fail::new(&format!("accepts:{}", expected(&r.why)),
                format!("accepted as {}; expected a rejection: {:?}", g.show(), r)));
        }
        (Ok(w), Err(e)) => {
            return Err(Fail::new(&format!("rejects:{}", variant(e)), format!("rejected with {:?}; expected {}", e, w.show())));
        }
        (Err(r), Err(e)) => {
            acc.outcome((expected(&r.why), r.tok.as_ref().map(|t| format!("{:?}", t.kind))));
            if a.errors { if let Err(d) = message(e) { return Err(Fail::new(&format!("message:{}", variant(e)), d)); } }
            if a.errors && !matches!(r.why, Why::Unsupported(_) | Why::Early("ParenthesizedPattern") | Why::Early("CommaAfterRest")) {
                // Which of the two a token that fits nowhere is reported as is not
                // specified; that it is reported is.
                let class = |v| if v == "FailedASI" { "UnexpectedToken" } else { v };
                let want = class(expected(&r.why));
                if want != class(variant(e)) {
                    return Err(Fail::new(&format!("error:{}:{}", want, variant(e)), format!("rejected with {:?}; expected {:?}", e, r)));
                }
                if let (Some(at), Some(t)) = (blame(e), &r.tok) {
                    if at != t.start {
                        return Err(Fail::new(&format!("blame:{}", want), format!("rejected with {:?}; expected {:?}", e, r)));
                    }
                }
                if let (Error::LexError(l), Why::Lex(w)) = (e, &r.why) {
                    if crate::canon::err(l) != *w { return Err(Fail::new("error:lex", format!("rejected with {:?}; expected {:?}", e, r))); }
                }
            }
        }
    }
    Ok(())
}

/// Expressions (and what consists of expressions) whose location may leave out
/// parentheses around the first or the last operand: the syntax tree does not
/// record them.
const OPERANDS: &[&str] = &["Unop", "Binop", "Logop", "PreInc", "PreDec", "PostInc", "PostDec", "Assign", "BinAssign", "Cond", "Call", "New",
    "Dot", "Brack", "Seq", "Prop", "PropPatt", "Dtor", "HeadExpr", "InVarInit"];

/// The positions at which the node may begin (or end).
fn edges(w: &Node, first: bool, out: &mut Vec<reflex::Pos>) {
    let (s, e) = match w.loc { Some(l) => l, None => return };
    out.push(if first { s } else { e });
    if !OPERANDS.contains(&w.kind) { return; }
    let kids = w.kids.iter().filter(|k| k.loc.is_some());
    let at = |k: &&Node| { let l = k.loc.unwrap(); if first { l.0.offset } else { l.1.offset } };
    if let Some(k) = if first { kids.min_by_key(at) } else { kids.max_by_key(at) } {
        let p = if first { k.loc.unwrap().0 } else { k.loc.unwrap().1 };
        if k.paren || p == (if first { s } else { e }) { edges(k, first, out); }
    }
}

fn locations(w: &Node, g: &Node, src: &str) -> Check {
    if w.loc != g.loc {
        let (mut starts, mut ends) = (vec![], vec![]);
        edges(w, true, &mut starts);
        edges(w, false, &mut ends);
        if !g.loc.map_or(false, |l| starts.contains(&l.0) && ends.contains(&l.1)) {
            return Err(Fail::new(&format!("location:{}", w.kind),
                format!("{} spans {:?}; expected {:?}, in {:?}", g.show(), g.loc, w.loc, src)));
        }
    }
    for (a, b) in w.kids.iter().zip(&g.kids) { locations(a, b, src)?; }
    Ok(())
}

pub fn tree(case: &[u8], acc: &mut Acc) -> Check {
    let (mode, src) = decode(case);
    acc.sample(|| src.to_string());
    compare(mode, src, acc, TREE)
}
pub fn cover(case: &[u8], acc: &mut Acc) -> Check {
    let (mode, src) = decode(case);
    acc.sample(|| src.to_string());
    compare(mode, src, acc, COVER)
}
pub fn errors(case: &[u8], acc: &mut Acc) -> Check {
    let (mode, src) = decode(case);
    acc.sample(|| src.to_string());
    compare(mode, src, acc, ERRORS)
}

// ---------------------------------------------------------------- P10 locations

pub fn spans(case: &[u8], acc: &mut Acc) -> Check {
    let (mode, src) = decode(case);
    acc.sample(|| src.to_string());
    compare(mode, src, acc, Aspect { locations: true, ..TREE })
}
