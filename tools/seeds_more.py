import sys; sys.path.insert(0,'/verif/tools')
from seedlib import make
LX="crates/joker/src/lexer.rs"; RD="crates/joker/src/reader.rs"; TK="crates/joker/src/token.rs"; WD="crates/joker/src/word.rs"; CH="crates/joker/src/char.rs"
UJ="crates/unjson/src/unjson.rs"; UE="crates/unjson/src/error.rs"
P='''use joker::Lexer;
#[allow(unused_imports)] use joker::token::*;
#[allow(dead_code)] fn toks(src: &str, op: bool) -> Vec<Token> { let mut l = Lexer::new(src.chars()); let mut v = vec![]; loop { let t = l.read_token(op).unwrap(); let e = t.value == TokenData::EOF; v.push(t); if e { return v; } } }
#[allow(dead_code)] fn num(src: &str) -> f64 { match toks(src, true)[0].value { TokenData::Number(ref n) => n.value, _ => panic!() } }
#[allow(dead_code)] fn string(t: &Token) -> &str { match t.value { TokenData::String(ref s) => &s.value, _ => panic!() } }
'''
only=sys.argv[1:]
def m(id,prop,edits,demo,needs,breaks):
    if only and id not in only: return
    make(id,prop,'lex',edits,P+demo,needs,breaks)
m('word-memo','L16',[(WD,"    contextual: HashMap<&'static str, Atom>\n}","    contextual: HashMap<&'static str, Atom>,\n    last: ::std::cell::RefCell<Option<(String, TokenData)>>\n}"),
 (WD,"""("target",   Target)
            ])
        }""","""("target",   Target)
            ]),
            last: ::std::cell::RefCell::new(None)
        }"""),
 (WD,"        Ok(match self.reserved.get(&s.text[..]) {","""        if let Some((ref text, ref value)) = *self.last.borrow() {
            if *text == s.text { return Ok(value.clone()); }
        }
        let text = s.text.clone();
        let value = match self.reserved.get(&s.text[..]) {"""),
 (WD,"""                _ => TokenData::Identifier(Name::String(s.text))
            }
        })""","""                _ => TokenData::Identifier(Name::String(s.text))
            }
        };
        *self.last.borrow_mut() = Some((text, value.clone()));
        Ok(value)""")],
 'fn main() { let v = toks("l\\\\u0065t let", true); assert!(v[0].value != v[1].value); }',
 "the same word twice in a row, once with an escape","the second spelling reads as the first one did: an escaped keyword acts as the keyword")
m('scratch-string','L16',[(LX,"    empty_line: bool\n}","    empty_line: bool,\n    scratch: String\n}"),(LX,"            empty_line: true\n        }\n    }","            empty_line: true,\n            scratch: String::new()\n        }\n    }"),
 (LX,"""        let mut s = String::new();
        self.reread('/');
        self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) })?;
        if !self.matches('/') {
            return Err(Error::UnterminatedRegExp(None));
        }""","""        let mut s = ::std::mem::replace(&mut self.scratch, String::new());
        self.reread('/');
        let body = self.read_until_with(&|ch| ch == '/', &mut |this| { this.read_regexp_char(&mut s) });
        if body.is_err() {
            self.scratch = s; // keep the allocation for the next one
            return body.map(|_| unreachable!());
        }
        if !self.matches('/') {
            return Err(Error::UnterminatedRegExp(None));
        }""")],
 'fn main() { let mut l = Lexer::new("/ab\\n/c/".chars()); assert!(l.read_token(false).is_err()); match l.read_token(false).unwrap().value { TokenData::RegExp(ref r) => assert_eq!(r.pattern, "c"), _ => panic!() } }',
 "a regular expression literal read after one that a line break cut off","the text of the broken literal is put in front of the next one's pattern")
m('pending-newline','L16',[(LX,"    empty_line: bool\n}","    empty_line: bool,\n    found_newline: bool\n}"),(LX,"            empty_line: true\n        }\n    }","            empty_line: true,\n            found_newline: false\n        }\n    }"),
 (LX,"        let mut found_newline = false;\n\n        // Skip","        // Skip"),
 (LX,"                    self.skip_newlines();\n                    found_newline = true;","                    self.skip_newlines();\n                    self.found_newline = true;"),
 (LX,"                    if self.skip_block_comment()? {\n                        found_newline = true;","                    if self.skip_block_comment()? {\n                        self.found_newline = true;"),
 (LX,"        result.newline = found_newline;","        result.newline = ::std::mem::replace(&mut self.found_newline, false);")],
 'fn main() { let mut l = Lexer::new("\\n3in x".chars()); assert!(l.read_token(true).is_err()); assert!(!l.read_token(true).unwrap().newline); }',
 "a malformed token after a line break, and reading on","the token after the malformed one is marked as preceded by a newline")
m('carried-surrogate','L06',[(LX,"    empty_line: bool\n}","    empty_line: bool,\n    last_escape: Option<(usize, u32)>\n}"),(LX,"            empty_line: true\n        }\n    }","            empty_line: true,\n            last_escape: None\n        }\n    }"),
 (LX,"""        // The length of the value after the last \\u escape, and its code.
        let mut last_escape = None;
""",""),
 (LX,"self.read_string_escape(&mut source, &mut value, &mut last_escape)?;","self.read_string_escape(&mut source, &mut value)?;"),
 (LX,"value: &mut String, last_escape: &mut Option<(usize, u32)>) -> Result<()> {","value: &mut String) -> Result<()> {"),
 (LX,"let pair = match *last_escape {","let pair = match self.last_escape {"),
 (LX,"*last_escape = Some((value.len(), code));","self.last_escape = Some((value.len(), code));")],
 'fn main() { let v = toks("\'\\\\ud83d\', \'?\\\\ude00\'", true); assert_eq!(string(&v[2]), "??"); }',
 "a string that ends in a lone high surrogate escape and a later one with a low surrogate escape at the same place","the two escapes of different literals combine into one character")
m('unread-line-start','L10',[(LX,"        self.ends.pop_back();\n        self.lookahead.push_front(token)","        self.ends.pop_back();\n        // the line is as empty as before the token was read\n        self.empty_line = token.newline; self.lookahead.push_front(token)")],
 'fn main() { let mut l = Lexer::new("\\nb --> c".chars()); let t = l.read_token(true).unwrap(); l.unread_token(t); l.skip_token(true).unwrap(); assert_eq!(l.read_token(true).unwrap().value, TokenData::Dec); }',
 "the first token of a line put back and read again before `-->`","`-->` in the middle of the line is skipped as a comment")
m('clinger','L05',[(TK,"            NumberSource::DecimalInt(ref mantissa, Some(Exp { ref sign, ref value, .. })) => {\n","""            NumberSource::DecimalInt(ref mantissa, Some(Exp { sign: Some(Sign::Plus), ref value, .. }))
            if mantissa.len() <= 15 && value.len() <= 2 && value.parse::<u32>().unwrap() <= 23 => {
                // exact operands: one correctly rounded multiplication
                mantissa.parse::<f64>().unwrap() * format!("1e{}", value).parse::<f64>().unwrap()
            }
            NumberSource::DecimalInt(ref mantissa, Some(Exp { ref sign, ref value, .. })) => {
"""),(TK,"""            NumberSource::DecimalInt(ref mantissa, None) => {
                mantissa.parse().unwrap()""","""            NumberSource::DecimalInt(ref mantissa, None) => {
                mantissa[..].parse().unwrap()""")],
 'fn main() { assert_eq!(num("3e+23"), 3e23); assert_eq!(num("67e+23"), 67e23); assert_eq!(num("7e+23"), 7e23); assert_eq!(num("9e+23"), 9e23); }',
 "an integer with the exponent +23 exactly, the first power of ten that is not a double","the value is rounded twice and off by one unit in the last place")
