import sys; sys.path.insert(0,'/verif/tools')
from seedlib import make
LX="crates/joker/src/lexer.rs"; RD="crates/joker/src/reader.rs"; TK="crates/joker/src/token.rs"; WD="crates/joker/src/word.rs"; CH="crates/joker/src/char.rs"
UJ="crates/unjson/src/unjson.rs"; UE="crates/unjson/src/error.rs"
P='''use joker::Lexer;
#[allow(unused_imports)] use joker::token::*;
#[allow(dead_code)] fn toks(src: &str, op: bool) -> Vec<Token> { let mut l = Lexer::new(src.chars()); let mut v = vec![]; loop { let t = l.read_token(op).unwrap(); let e = t.value == TokenData::EOF; v.push(t); if e { return v; } } }
'''
J='''use unjson::*;
#[allow(unused_imports)] use serde_json::value::Value;
#[allow(dead_code)] fn obj(s: &str) -> std::collections::BTreeMap<String, Value> { serde_json::from_str(s).unwrap() }
'''
only=sys.argv[1:]
def m(id,prop,kind,edits,demo,needs,breaks):
    if only and id not in only: return
    make(id,prop,kind,edits,(P if kind=='lex' else J)+demo,needs,breaks)
m('exp-eof-panic','L01','lex',[(LX,"            None => { return Err(Error::MissingExponent(None)); }\n","")],
 'fn main() { let r = Lexer::new("1e+".chars()).read_token(true); assert!(r.is_err()); }',
 "a text that ends right after an exponent marker","the lexer panics instead of reporting a missing exponent")
m('dot-dot','L02','lex',[(LX,"""                Ok(if self.reader.peek(2) == Some('.') {
                    self.read_punc3(TokenData::Ellipsis)
                } else {
                    self.read_punc(TokenData::Dot)
                })""","                Ok(self.read_punc2_3('.', TokenData::Dot, TokenData::Ellipsis))")],
 'fn main() { let v = toks("a..b", true); assert_eq!(v.len(), 5); assert_eq!(v[1].location.end.offset, 2); }',
 "two adjacent dots that are not an ellipsis","the second dot is swallowed into the first token")
m('wide-column','L03','lex',[(RD,"            self.curr_posn.column += 1;","            self.curr_posn.column += curr_char.map_or(1, |ch| ch.len_utf16() as u32);")],
 'fn main() { let v = toks("\'\\u{1f600}\' a", true); assert_eq!(v[1].location.start.column, 4); }',
 "a character outside the basic multilingual plane earlier on the same line","columns count UTF-16 units instead of characters")
m('comment-newline','L04','lex',[(LX,"                    if ch.is_es_newline() {\n                        found_newline = true;","                    if ch == '\\n' {\n                        found_newline = true;")],
 'fn main() { let v = toks("a /* \\u{2028} */ b", true); assert!(v[1].newline); }',
 "a block comment containing CR, LS or PS but no LF","the following token is not marked as preceded by a newline")
m('exp-double-round','L05','lex',[(TK,"""                format!("{}e{}{}", mantissa, format_sign(sign), value).parse().unwrap()""","""                let mantissa: f64 = mantissa.parse().unwrap();
                let scale: f64 = format!("1e{}", value).parse().unwrap();
                match *sign {
                    Some(Sign::Minus) => mantissa / scale,
                    _                 => mantissa * scale
                }""")],
 'fn main() { match toks("17e-24", true)[0].value { TokenData::Number(ref n) => assert_eq!(n.value, 17e-24), _ => panic!() }; match toks("0e400", true)[0].value { TokenData::Number(ref n) => assert_eq!(n.value, 0.0), _ => panic!() } }',
 "an integer literal with an exponent whose power of ten is not exactly representable","the value is rounded twice and is off by one ulp, or NaN for 0e400")
m('octal-escape-limit','L06','lex',[(LX,"if new_code > 255 {","if new_code > 256 {")],
 'fn main() { match toks("\'\\\\400\'", true)[0].value { TokenData::String(ref s) => assert_eq!(s.value, " 0"), _ => panic!() } }',
 "the octal escape \\400 exactly","\\400 becomes one character U+0100 instead of \\40 followed by 0")
m('crlf-source','L06','lex',[(LX,'            s.push_str("\\r\\n");\n','            s.push(\'\\n\');\n')],
 'fn main() { match toks("\'a\\\\\\r\\nb\'", true)[0].value { TokenData::String(ref s) => assert_eq!(s.source.as_ref().unwrap(), "\'a\\\\\\r\\nb\'"), _ => panic!() } }',
 "a line continuation with a CR LF line break","the kept source text of the literal loses the CR")
m('class-escape','L07','lex',[(LX,"""    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
        match self.peek() {
            Some('\\\\') => self.read_regexp_backslash(s),
""","""    fn read_regexp_class_char(&mut self, s: &mut String) -> Result<()> {
        match self.peek() {
""")],
 'fn main() { match Lexer::new("/[\\\\]/]/g".chars()).read_token(false).unwrap().value { TokenData::RegExp(ref r) => assert_eq!(r.pattern, "[\\\\]/]"), _ => panic!() } }',
 "an escaped closing bracket inside a class","the class ends at the escaped bracket and the literal at the next slash")
m('escaped-contextual','L08','lex',[(WD,"Some(&atom) if !s.had_escape() => TokenData","Some(&atom) => TokenData")],
 'fn main() { assert!(toks("l\\\\u0065t", true)[0].value != toks("let", true)[0].value); }',
 "a contextual keyword spelled with an escape","the escaped spelling acts as the keyword")
m('html-open-short','L09','lex',[(LX,"if self.reader.peek(2) == Some('-') && self.reader.peek(3) == Some('-') {","if self.reader.peek(2) == Some('-') {")],
 'fn main() { assert_eq!(toks("a<!-b", true).len(), 6); }',
 "less-than, not, minus written without spaces","`a<!-b` is cut off as an HTML-like comment")
m('unread-back','L10','lex',[(LX,'        self.lookahead.push_front(token)\n    }\n\n    // One more','        self.lookahead.push_back(token)\n    }\n\n    // One more')],
 'fn main() { let mut l = Lexer::new("a b c".chars()); let a = l.read_token(true).unwrap(); l.peek_token(true).unwrap(); l.unread_token(a.clone()); assert_eq!(l.read_token(true).unwrap(), a); }',
 "unread while another token is already buffered","tokens come back in the wrong order")
m('skip-clears','L10','lex',[(LX,"        self.read_token(operator)?;\n        Ok(())","        if self.lookahead.is_empty() {\n            self.read_next_token(operator)?;\n        } else {\n            self.lookahead.clear();\n        }\n        Ok(())")],
 'fn main() { let mut l = Lexer::new("a b c".chars()); let a = l.read_token(true).unwrap(); l.peek_token(true).unwrap(); l.unread_token(a); l.skip_token(true).unwrap(); assert_eq!(l.read_token(true).unwrap().location.start.offset, 2); }',
 "skip while two tokens are buffered","the second buffered token is lost")
m('greedy-reader','L11','lex',[(RD,"        for _ in self.ahead.len()..(n + 1) {","        for _ in self.ahead.len()..(if self.ahead.len() > n { n + 1 } else { n + 17 }) {"),(RD,"                None => {\n                    return None\n                }","                None => { break }")],
 '''struct C<'a>(std::str::Chars<'a>, &'a std::cell::Cell<usize>);
impl<'a> Iterator for C<'a> { type Item = char; fn next(&mut self) -> Option<char> { self.1.set(self.1.get() + 1); self.0.next() } }
fn main() { let n = std::cell::Cell::new(0); let mut l = Lexer::new(C("a; bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb".chars(), &n)); l.read_token(true).unwrap(); assert!(n.get() <= 5, "{}", n.get()); }''',
 "an interactive or otherwise incremental source of characters","the reader takes sixteen more characters than it needs")
m('missing-binary','L12','lex',[(LX,"        }, Error::MissingBinaryDigits)","        }, Error::MissingOctalDigits)")],
 'fn main() { assert_eq!(Lexer::new("0b".chars()).read_token(true).unwrap_err(), joker::error::Error::MissingBinaryDigits); }',
 "a text that ends right after 0b","the error reports missing octal digits")
m('flag-sets','L13','lex',[(TK,"        x.sort();\n        x","        x.sort();\n        x.dedup();\n        x")],
 'fn main() { let r = |s: &str| Lexer::new(s.chars()).read_token(false).unwrap().value; assert!(r("/a/gg") != r("/a/g")); assert!(r("/a/gi") == r("/a/ig")); }',
 "regular expressions whose flags differ only in repetition","different literals compare equal")
m('number-wrap','J01','json',[(UJ,"""            &Value::I64(ref v) => *v as f64,
            &Value::U64(ref v) => *v as f64,
            &Value::F64(ref v) => *v,
""","""            &Value::F64(ref v) => *v,
            v => match v.as_u64() {
                Some(u) => u as i64 as f64,
                None => match v.as_i64() {
                    Some(i) => i as f64,
                    None => { return type_error("number", self.ty()); }
                }
            },
"""),(UJ,"            _ => { return type_error(\"number\", self.ty()); }\n        })\n    }\n\n    fn as_str_opt","        })\n    }\n\n    fn as_str_opt")],
 'fn main() { let o = obj("{\\"a\\": 18446744073709551615}"); assert_eq!(o.get_number("a").unwrap(), 18446744073709551615.0); }',
 "an integer field above 2^63","a large unsigned field reads as a negative number")
m('extract-keeps','J02','json',[(UJ,"        self.extract_field(name).and_then(|v| v.into_object_opt())","        if self.get_object_opt(name)?.is_none() {\n            return Ok(None);\n        }\n        self.extract_field(name).and_then(|v| v.into_object_opt())")],
 'fn main() { let mut o = obj("{\\"a\\": null}"); assert!(o.extract_object_opt("a").unwrap().is_none()); assert!(o.extract_field("a").is_err()); }',
 "extracting an optional object that is null, then using the same field again","the field stays in the object")
m('index-roles','J03','json',[(UE,"""format_args!("array index {} out of bounds (length {})", index, len)""","""format_args!("array index {} out of bounds (length {})", len, index)""")],
 'fn main() { assert_eq!(unjson::error::index_error::<()>(3, 7).unwrap_err().to_string(), "array index 7 out of bounds (length 3)"); let _ = obj("{}"); }',
 "an index error with index and length different","the message swaps index and length")
