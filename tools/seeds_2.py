import sys
exec(open('/verif/tools/seeds_more.py').read().split("m('word-memo'")[0])
m('brace-digits','L06',[(LX,"            if !self.matches('}') {\n                return Err(Error::MissingHexDigits);","            if digits.len() > 8 || !self.matches('}') {\n                return Err(Error::MissingHexDigits);")],
 'fn main() { assert_eq!(string(&toks("\'\\\\u{000000041}\'", false)[0]), "A"); }',"a code-point escape with more than eight digits, most of them zeros","a valid string is rejected")
m('column-16','L03',[(RD,"            self.curr_posn.column += 1;","            self.curr_posn.column = (self.curr_posn.column + 1) & 0xffff;")],
 'fn main() { let s = format!("{}x", " ".repeat(65536)); assert_eq!(toks(&s, false)[0].location.start.column, 65536); }',"a line of more than 65535 characters (minified code)","columns wrap around")
m('comment-clears-newline','L04',[(LX,"                    if self.skip_block_comment()? {\n                        found_newline = true;","                    found_newline = self.skip_block_comment()?;\n                    if found_newline {")],
 'fn main() { assert!(toks("a\\n/**/b", false)[1].newline); }',"a block comment on one line after the line break","the newline mark is lost")
m('long-exponent','L05',[(TK,'                format!("{}.{}e{}{}", format_int(ip), format_int(fp), format_sign(sign), value).parse().unwrap()','''                // nothing beyond e99999 is finite
                let value = if value.len() > 5 { "99999" } else { &value[..] };
                format!("{}.{}e{}{}", format_int(ip), format_int(fp), format_sign(sign), value).parse().unwrap()''')],
 'fn main() { assert_eq!(num("1.5e000001"), 15.0); }',"a fraction whose exponent is spelled with many leading zeros","the value becomes infinite or zero")
m('surrogate-name','L08',[(LX,"        let first = s.text.is_empty();","""        // A pair of escapes spells one character, as in strings.
        let code_point = if code_point >= 0xD800 && code_point < 0xDC00 && self.peek2() == (Some('\\\\'), Some('u')) {
            self.skip2();
            let low = self.read_unicode_escape_seq(&mut dummy)?;
            combine_surrogates(code_point, low).map_or(code_point, |ch| ch as u32)
        } else {
            code_point
        };
        let first = s.text.is_empty();""")],
 'fn main() { assert!(Lexer::new("\\\\uD842\\\\uDFB7".chars()).read_token(true).is_err()); }',"an identifier with a surrogate pair spelled as two escapes","an illegal identifier is accepted")
m('flag-case','L13',[(TK,"        let mut x: Vec<char> = self.to_vec();","        let mut x: Vec<char> = self.iter().map(|ch| ch.to_ascii_lowercase()).collect();")],
 'fn main() { assert!(toks("/a/g", false)[0].value != toks("/a/G", false)[0].value); }',"two regular expressions whose flags differ in case","different literals compare equal")
m('repeek-back','L10',[(LX,"    pub fn repeek_token(&mut self) -> &Token {\n        self.lookahead.front().unwrap()","    pub fn repeek_token(&mut self) -> &Token {\n        self.lookahead.back().unwrap()")],
 'fn main() { let mut l = Lexer::new("a b".chars()); let a = l.read_token(true).unwrap(); l.peek_token(true).unwrap(); l.unread_token(a.clone()); assert_eq!(*l.repeek_token(), a); }',"two tokens in the buffer","repeek shows the second one")
m('crlf-payload','L12',[(LX,"                    return Err(Error::UnterminatedString(Some(ch)));","                    let end = if self.peek2() == (Some('\\r'), Some('\\n')) { '\\n' } else { ch };\n                    return Err(Error::UnterminatedString(Some(end)));")],
 'fn main() { assert_eq!(format!("{:?}", Lexer::new("\\"a\\r\\n".chars()).read_token(true).unwrap_err()), format!("{:?}", joker::error::Error::UnterminatedString(Some(\'\\r\')))); }',"a string cut off by CR LF","the error names the wrong character")
m('two-escapes','L08',[(WD,"        self.had_escape = true;","        self.had_escape = !self.had_escape;")],
 'fn main() { assert!(Lexer::new("\\\\u0069\\\\u0066".chars()).read_token(true).is_err()); }',"a reserved word with an even number of escapes","it is accepted as the keyword")
m('escape-count','L01',[(WD,"    had_escape: bool,","    had_escape: u8,"),(WD,"            had_escape: false,","            had_escape: 0,"),(WD,"        self.had_escape\n","        self.had_escape > 0\n"),(WD,"        self.had_escape = true;","        self.had_escape += 1;")],
 'fn main() { let s = "\\\\u0061".repeat(300); toks(&s, true); }',"a name with 256 escapes","the tokenizer panics (or takes an escaped keyword for a plain one)")
m('line-start-error','L16',[(LX,"        self.empty_line = false;\n\n        let mut result","        let mut result"),(LX,"        result.newline = found_newline;","        self.empty_line = false;\n        result.newline = found_newline;")],
 'fn main() { let mut l = Lexer::new("\\n3in--> x".chars()); assert!(l.read_token(true).is_err()); l.read_token(true).unwrap(); let mut l = Lexer::new("\\n\\\'\\\\u{110000}-->b".chars()); assert!(l.read_token(true).is_err()); let t = l.read_token(true).unwrap().value; assert_eq!(t, TokenData::Dec); }',"a malformed token at the start of a line, `-->` where scanning stopped","the rest of the line is skipped as a comment")
def j(id,prop,edits,demo,needs,breaks):
    if only and id not in only: return
    make(id,prop,'json',edits,demo,needs,breaks)
j('null-kept','J02',[(UJ,"        self.extract_field(name).and_then(|v| v.into_object_opt())","        if self.get_field(name)?.is_null() { return Ok(None); }\n        self.extract_field(name).and_then(|v| v.into_object_opt())")],
 '''extern crate serde_json; use unjson::*;
fn main() { let mut o = serde_json::from_str::<serde_json::Value>("{\\"a\\":null}").unwrap().into_object().unwrap(); assert!(o.extract_object_opt("a").unwrap().is_none()); assert!(o.extract_object_opt("a").is_err()); }''',"an optional object field that is null, extracted twice","the field stays in the object")
