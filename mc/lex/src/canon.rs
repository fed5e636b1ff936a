//! joker's tokens and errors, rendered in the reference tokenizer's terms.
use joker::error::Error;
use joker::token::*;
use joker::track::Posn;
use joker::word::{Atom, Name, Reserved};
use reflex::{Exp as RExp, Err as RErr, Kind, Num, Pos, Tok};

pub fn pos(p: Posn) -> Pos { Pos { offset: p.offset, line: p.line, column: p.column } }

pub fn tok(t: &Token) -> Tok {
    Tok { kind: kind(&t.value), start: pos(t.location.start), end: pos(t.location.end), newline: t.newline }
}

pub fn punct(d: &TokenData) -> Option<&'static str> {
    use joker::token::TokenData::*;
    Some(match *d {
        LBrace => "{", RBrace => "}", LParen => "(", RParen => ")", LBrack => "[", RBrack => "]",
        Dot => ".", Ellipsis => "...", Semi => ";", Comma => ",", LAngle => "<", RAngle => ">",
        LEq => "<=", GEq => ">=", Eq => "==", NEq => "!=", StrictEq => "===", StrictNEq => "!==",
        Plus => "+", Minus => "-", Star => "*", Mod => "%", Slash => "/", Inc => "++", Dec => "--",
        LShift => "<<", RShift => ">>", URShift => ">>>", BitAnd => "&", BitOr => "|", BitXor => "^",
        Bang => "!", Tilde => "~", LogicalAnd => "&&", LogicalOr => "||", Question => "?", Colon => ":",
        Assign => "=", PlusAssign => "+=", MinusAssign => "-=", StarAssign => "*=", SlashAssign => "/=",
        ModAssign => "%=", LShiftAssign => "<<=", RShiftAssign => ">>=", URShiftAssign => ">>>=",
        BitAndAssign => "&=", BitOrAssign => "|=", BitXorAssign => "^=", Arrow => "=>",
        _ => return None,
    })
}

pub fn reserved(r: Reserved) -> &'static str {
    use joker::word::Reserved::*;
    match r {
        Null => "null", True => "true", False => "false", Break => "break", Case => "case", Catch => "catch",
        Class => "class", Const => "const", Continue => "continue", Debugger => "debugger", Default => "default",
        Delete => "delete", Do => "do", Else => "else", Export => "export", Extends => "extends",
        Finally => "finally", For => "for", Function => "function", If => "if", Import => "import", In => "in",
        Instanceof => "instanceof", New => "new", Return => "return", Super => "super", Switch => "switch",
        This => "this", Throw => "throw", Try => "try", Typeof => "typeof", Var => "var", Void => "void",
        While => "while", With => "with", Enum => "enum",
        #[allow(unreachable_patterns)] _ => "<unknown>",
    }
}

pub fn atom(a: Atom) -> &'static str {
    use joker::word::Atom::*;
    match a {
        Arguments => "arguments", Async => "async", Await => "await", Eval => "eval", From => "from", Get => "get",
        Implements => "implements", Interface => "interface", Let => "let", Of => "of", Package => "package",
        Private => "private", Protected => "protected", Public => "public", Set => "set", Static => "static",
        Target => "target", Yield => "yield",
        #[allow(unreachable_patterns)] _ => "<unknown>",
    }
}

fn case(c: CharCase, lower: char) -> char {
    match c { CharCase::LowerCase => lower, CharCase::UpperCase => lower.to_ascii_uppercase() }
}

fn exp(e: &Option<Exp>) -> Option<RExp> {
    e.as_ref().map(|e| RExp {
        e: case(e.e, 'e'),
        sign: e.sign.map(|s| match s { Sign::Plus => '+', Sign::Minus => '-' }),
        digits: e.value.clone(),
    })
}

pub fn num(n: &NumberSource) -> Num {
    match *n {
        NumberSource::DecimalInt(ref d, ref e) => Num::Dec(d.clone(), exp(e)),
        NumberSource::RadixInt(r, ref d) => match r {
            Radix::Bin(c) => Num::Radix(2, Some(case(c, 'b')), d.clone()),
            Radix::Oct(c) => Num::Radix(8, c.map(|c| case(c, 'o')), d.clone()),
            Radix::Hex(c) => Num::Radix(16, Some(case(c, 'x')), d.clone()),
            #[allow(unreachable_patterns)] _ => Num::Radix(0, None, d.clone()),
        },
        NumberSource::Float(ref i, ref f, ref e) => Num::Float(i.clone(), f.clone(), exp(e)),
        #[allow(unreachable_patterns)] _ => Num::Radix(0, None, String::new()),
    }
}

pub fn kind(d: &TokenData) -> Kind {
    if let Some(p) = punct(d) { return Kind::Punct(p); }
    match *d {
        TokenData::Reserved(r) => Kind::Reserved(reserved(r)),
        TokenData::Identifier(Name::Atom(a)) => Kind::Ident(atom(a).to_string(), true),
        TokenData::Identifier(Name::String(ref s)) => Kind::Ident(s.clone(), false),
        TokenData::Number(ref n) => Kind::Number(n.value,
            n.source.as_ref().map_or(Num::Dec("<no source>".into(), None), num)),
        TokenData::String(ref s) => Kind::Str(s.value.clone(), s.source.clone().unwrap_or_else(|| "<no source>".into())),
        TokenData::RegExp(ref r) => Kind::RegExp(r.pattern.clone(), r.flags.iter().collect()),
        TokenData::EOF => Kind::Eof,
        _ => Kind::Punct("<unknown>"),
    }
}

pub fn err(e: &Error) -> RErr {
    match *e {
        Error::IncompleteWordEscape(c) => RErr::IncompleteWordEscape(c),
        Error::UnterminatedComment => RErr::UnterminatedComment,
        Error::UnterminatedRegExp(c) => RErr::UnterminatedRegExp(c),
        Error::MissingExponent(c) => RErr::MissingExponent(c),
        Error::UnterminatedString(c) => RErr::UnterminatedString(c),
        Error::MissingBinaryDigits => RErr::MissingBinaryDigits,
        Error::MissingOctalDigits => RErr::MissingOctalDigits,
        Error::MissingHexDigits => RErr::MissingHexDigits,
        Error::IllegalChar(c) => RErr::IllegalChar(c),
        Error::InvalidDigit(c) => RErr::InvalidDigit(c),
        Error::IllegalUnicode(u) => RErr::IllegalUnicode(u),
        Error::IdAfterNumber(c) => RErr::IdAfterNumber(c),
        Error::DigitAfterNumber(c) => RErr::DigitAfterNumber(c),
        Error::ReservedWordWithEscapes(r) => RErr::ReservedWordWithEscapes(reserved(r)),
        #[allow(unreachable_patterns)] _ => RErr::ReservedWordWithEscapes("<unknown>"),
    }
}
