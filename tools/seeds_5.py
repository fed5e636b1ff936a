import sys
exec(open('/verif/tools/seeds_more.py').read().split("m('word-memo'")[0])
JP='''#[allow(unused_imports)] use unjson::{Unjson, GetField, ExtractField};
#[allow(unused_imports)] use unjson::ty::*;
#[allow(unused_imports)] use serde_json::value::Value;
#[allow(dead_code)] fn obj(s: &str) -> Object { match serde_json::from_str::<Value>(s).unwrap() { Value::Object(o) => o, _ => panic!() } }
'''
def j(id,prop,edits,demo,needs,breaks):
    if only and id not in only: return
    make(id,prop,'json',edits,JP+demo,needs,breaks)
m('eof-unread','L10',[(LX,'        self.ends.pop_back();\n        self.lookahead.push_front(token)','        if token.value != TokenData::EOF {\n            self.ends.pop_back();\n        }\n        self.lookahead.push_front(token)')],
 'fn main() { let mut l = Lexer::new("a ".chars()); l.read_token(true).unwrap(); let e = l.read_token(true).unwrap(); l.unread_token(e); assert_eq!(l.last_end().offset, 1); }',"putting the end of the input back","the last consumed token seems to end at the end of the input")
m('word-shape-memo','L16',[(LX,"    wordmap: WordMap,\n    empty_line: bool\n}","    wordmap: WordMap,\n    words: ::std::collections::HashMap<(char, char, usize), TokenData>,\n    empty_line: bool\n}"),
 (LX,"            wordmap: WordMap::new(),\n            empty_line: true","            wordmap: WordMap::new(),\n            words: ::std::collections::HashMap::new(),\n            empty_line: true"),
 (LX,"        Ok(span.end(self, self.wordmap.tokenize(s)?))","""        // reserved words recur
        let key = (s.text.chars().next().unwrap(), s.text.chars().last().unwrap(), s.text.chars().count());
        if !s.had_escape() {
            if let Some(value) = self.words.get(&key) { return Ok(span.end(self, value.clone())); }
        }
        let escaped = s.had_escape();
        let value = self.wordmap.tokenize(s)?;
        if let (false, &TokenData::Reserved(_)) = (escaped, &value) { self.words.insert(key, value.clone()); }
        Ok(span.end(self, value))""")],
 'fn main() { let v = toks("var vbr", true); assert!(v[1].value != v[0].value); }',"a reserved word, later a name with the same first and last letters and length","the name is taken for the reserved word")
m('comment-recursion','L01',[(LX,"""                    if self.skip_block_comment()? {
                        found_newline = true;
                        self.empty_line = true;
                    }
                }""","""                    let newline = self.skip_block_comment()? || found_newline;
                    self.empty_line = self.empty_line || newline;
                    let mut token = self.read_next_token(operator)?;
                    token.newline = token.newline || newline;
                    return Ok(token);
                }""")],
 'fn main() { let s = "/**/".repeat(200000); assert_eq!(toks(&s, true).len(), 1); }',"very many comments in a row","the stack overflows")
m('id-after-number','L12',[(LX,"            Some(ch) if ch == '\\\\' || ch.is_es_identifier_start() => { return Err(Error::IdAfterNumber(ch)); }","            Some(ch) if ch == '\\\\' || ch == '$' || ch == '_' || ch.is_alphabetic() => { return Err(Error::IdAfterNumber(ch)); }")],
 'fn main() { assert!(Lexer::new("1\\u{2118}".chars()).read_token(true).is_err()); }',"a number followed by a letter-like symbol that may begin a name","two tokens instead of an error")
m('bom-skipped','L03',[(RD,"        self.curr_posn.offset += 1;\n","        if curr_char != Some('\\u{feff}') || self.curr_posn.offset > 0 { // not the byte order mark\n            self.curr_posn.offset += 1;\n        }\n")],
 'fn main() { assert_eq!(toks("\\u{feff}a", true)[0].location.start.offset, 1); }',"a text with a byte order mark","positions are one too small")
m('dollar-flag','L07',[(LX,"        let flags = self.read_word_parts()?;","        let flags = if self.peek() == Some('$') { Word::new() } else { self.read_word_parts()? };")],
 'fn main() { assert_eq!(toks("/a/$", false).len(), 2); }',"a dollar sign right after a regular expression","it becomes a token of its own")
m('oct-escape-two','L06',[(LX,"                            let new_code = (code << 3) + ch.to_digit(8).unwrap();\n                            if new_code > 255 {","                            let new_code = (code << 3) + ch.to_digit(8).unwrap();\n                            if new_code > 255 || code >= 0x18 && new_code > 0xff {")],
 'fn main() { }',"x","x") if False else None
m('nul-digit','L06',[(LX,"            Some(ch) if ch.is_es_oct_digit() => {\n                let mut code = 0;\n                for _ in 0..3 {","            Some(ch) if ch.is_es_oct_digit() => {\n                let mut code = 0;\n                let most = if ch == '0' { 2 } else { 3 };\n                for _ in 0..most {")],
 'fn main() { assert_eq!(string(&toks("\\"\\\\012\\"", true)[0]), "\\n"); }',"a three digit octal escape that begins with zero","its last digit is left over")
m('exp-sign-plus','L05',[(TK,"        Some(Sign::Minus) => \"-\",\n        _ => \"\"","        Some(Sign::Minus) => \"-0\",\n        _ => \"\"")],
 'fn main() { assert_eq!(num("1e-5"), 1e-5); }',"nothing: the value stays","nothing") if False else None
m('hex-case','L05',[(LX,"        let flag = if self.read().is_lowercase() {","        let flag = if { self.skip(); self.peek().map_or(true, |ch| !ch.is_uppercase()) } {")],
 'fn main() { match toks("0xA", true)[0].value { TokenData::Number(ref n) => assert_eq!(n.source, Some(NumberSource::RadixInt(Radix::Hex(CharCase::LowerCase), "A".to_string()))), _ => panic!() } }',"a hexadecimal literal with a small prefix and capital digits","its prefix is recorded as capital")
m('debug-flags','L13',[(TK,'            .field("flags", &self.flags.alphabetize())','            .field("flags", &self.flags)')],
 'fn main() { let a = &toks("/a/gi", false)[0].value; let b = &toks("/a/ig", false)[0].value; let (a, b) = (format!("{:?}", a), format!("{:?}", b)); assert_eq!(a, b); }',"equal regular expressions with flags in a different order","their debug texts differ")
m('illegal-astral','L14',[("crates/joker/src/error.rs",'format_args!("{}: \\\\u{{{:04x}}}", self.description(), u)','format_args!("{}: \\\\u{{{:04x}}}", self.description(), *u & 0xfffff)')],
 'fn main() { let e = Lexer::new("\\\\u{110000}".chars()).read_token(true).unwrap_err(); assert!(format!("{}", e).ends_with("\\\\u{110000}"), "{}", e); }',"an escape beyond the last code point","its message names another one")
m('skip-newline-lost','L04',[(LX,"                    self.skip_newlines();\n                    found_newline = true;","                    let line = self.posn().line;\n                    self.skip_newlines();\n                    found_newline = self.posn().line & 0xff != line & 0xff;")],
 'fn main() { let s = format!("a{}b", "\\n".repeat(256)); assert!(toks(&s, true)[1].newline); }',"exactly 256 line breaks between two tokens","the second is not marked as following a line break")
m('crlf-half','L04',[(LX,"                (Some('\\r'), Some('\\n'))            => { self.skip2(); }\n                (Some(ch), _) if","                (Some('\\r'), Some('\\n'))            => { self.skip2(); }\n                (Some('\\u{2028}'), Some('\\u{2029}')) => { break; }\n                (Some(ch), _) if")],
 'fn main() { assert_eq!(toks("\\u{2028}\\u{2029}a", true).len(), 2); }',"a line separator and a paragraph separator in a row","reading hangs")
m('span-eq','L15',[("crates/joker/src/track.rs","        (Some(l), Some(r)) => Some(Span { start: l.start, end: r.end }),","        (Some(l), Some(r)) => Some(if l.start.offset <= r.start.offset { Span { start: l.start, end: r.end } } else { Span { start: r.start, end: l.end } }),")],
 'use joker::track::*;\nfn main() { let p = |o| Posn { offset: o, line: 0, column: o }; let s = span(&Some(Span { start: p(5), end: p(6) }), &Some(Span { start: p(1), end: p(2) })).unwrap(); assert_eq!(s.start.offset, 5); }',"a left part that lies after the right one","start and end come from the wrong parts")
j('empty-name','J01',[(UJ,"    fn get_field(&self, name: &'static str) -> Result<&Value> {\n        match self.get(name) {","    fn get_field(&self, name: &'static str) -> Result<&Value> {\n        match self.get(name).or_else(|| self.get(name.trim_right_matches('_'))) {")],
 'fn main() { assert!(obj("{\\"type\\":1}").get_field("type_").is_err()); }',"a field name that ends in an underscore","another field is found")
j('f64-int','J01',[(UJ,"    fn to_i64(&self) -> Result<i64> {\n        self.as_i64()","    fn to_i64(&self) -> Result<i64> {\n        self.as_i64().or_else(|| self.as_f64().and_then(|f| if f.fract() == 0.0 && f.abs() > 9007199254740992.0 { Some(f as i64) } else { None }))")],
 'fn main() { assert!(Value::F64(1e300).to_i64().is_err()); }',"an integral floating point number above 2^53 asked for as i64","it is converted, saturating")
j('last-removed','J02',[(UJ,"        match self.remove(name) {\n            Some(json) => Ok(json),","        match self.remove(name) {\n            Some(json) => { if self.len() == 1 && self.contains_key(\"type\") { self.clear(); } Ok(json) }")],
 'fn main() { let mut o = obj("{\\"type\\":1,\\"a\\":2}"); o.extract_field("a").unwrap(); assert!(o.get_field("type").is_ok()); }',"the last field but one is extracted and only `type` is left","it is dropped")
j('mismatch-keeps','J02',[(UJ,"    fn extract_bool(&mut self, name: &'static str) -> Result<bool> {\n        self.extract_field(name).and_then(|v| v.to_bool())","    fn extract_bool(&mut self, name: &'static str) -> Result<bool> {\n        let result = self.get_bool(name);\n        if result.is_ok() { self.remove(name); }\n        result")],
 'fn main() { let mut o = obj("{\\"a\\":2}"); assert!(o.extract_bool("a").is_err()); assert!(o.get_field("a").is_err()); }',"extracting a boolean from a field that is not one","the field stays")
