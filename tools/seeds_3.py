import sys
exec(open('/verif/tools/seeds_more.py').read().split("m('word-memo'")[0])
m('radix-memo','L16',[(TK,"            NumberSource::RadixInt(ref radix, ref src) => {\n                let radix = radix.value();","""            NumberSource::RadixInt(ref radix, ref src) => {
                thread_local!(static LAST: ::std::cell::RefCell<(String, f64)> = ::std::cell::RefCell::new((String::new(), 0.0)));
                if LAST.with(|last| last.borrow().0 == *src) { return LAST.with(|last| last.borrow().1); }
                let radix = radix.value();"""),
 (TK,"                bits as f64 * scale","                LAST.with(|last| *last.borrow_mut() = (src.clone(), bits as f64 * scale));\n                bits as f64 * scale")],
 'fn main() { let v = toks("0x10 0o10", true); match v[1].value { TokenData::Number(ref n) => assert_eq!(n.value, 8.0), _ => panic!() } }',
 "two literals with the same digits in different radices, one after the other","the second has the value of the first")
m('mantissa-cut','L05',[(TK,'                format!("{}.{}", format_int(ip), format_int(fp)).parse().unwrap()','''                // more digits than a double can tell apart
                let digits = format_int(fp);
                format!("{}.{}", format_int(ip), &digits[..digits.len().min(100)]).parse().unwrap()''')],
 'fn main() { assert_eq!(num(&format!("9007199254740993.{}1", "0".repeat(120))), 9007199254740994.0); }',"a fraction of more than a hundred digits just above the middle between two doubles","it is rounded down")
if not only or 'debug-assert-effect' in only: make('debug-assert-effect','L07','plain',[(LX,"        if !self.matches('/') {\n            return Err(Error::UnterminatedRegExp(None));\n        }\n        let flags","        if self.peek().is_none() {\n            return Err(Error::UnterminatedRegExp(None));\n        }\n        debug_assert!(self.matches('/'));\n        let flags")],
 P+'fn main() { assert_eq!(toks("/a/", false).len(), 2); }',"a build without debug assertions","the closing slash is not consumed")
m('line-memo','L03',[(RD,"            self.curr_posn.line += 1;","            self.curr_posn.line = if self.curr_posn.line == 0xffff { 0 } else { self.curr_posn.line + 1 };")],
 'fn main() { let s = format!("{}x", "\\n".repeat(70000)); assert_eq!(toks(&s, false)[0].location.start.line, 70000); }',"a file of more than 65536 lines","line numbers start again")
m('second-class','L07',[(LX,"    fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {\n        s.push(self.reread('['));","    fn read_regexp_class(&mut self, s: &mut String) -> Result<()> {\n        s.push(self.reread('['));\n        if self.peek2() == (Some('^'), Some(']')) { s.push(self.reread('^')); s.push(self.reread(']')); } // a literal bracket")],
 'fn main() { match toks("/[^]/", false)[0].value { TokenData::RegExp(ref r) => assert_eq!(r.pattern, "[^]"), _ => panic!() } }',"a negated empty class","its bracket is taken for a member and the class goes on")
m('comment-start-star','L09',[(LX,"        self.skip2();\n        let mut found_newline = false;\n        loop {","        self.skip2();\n        let mut found_newline = false;\n        if self.peek2() == (Some('*'), Some('*')) { self.skip2(); } // a documentation banner\n        loop {")],
 'fn main() { assert_eq!(toks("/***/ a /**/", true).len(), 2); }',"a block comment of exactly three stars","the comment does not end there")
m('legacy-octal-9','L05',[(LX,"s.chars().skip(1).all(|ch| ch.is_es_oct_digit())","s.chars().skip(1).take(16).all(|ch| ch.is_es_oct_digit())")],
 'fn main() { assert_eq!(num("00000000000000000009"), 9.0); }',"a decimal literal with very many leading zeros","the tokenizer panics on the digit 9")
m('ident-continue-joiner','L08',[(LX,"!first && ch.is_es_identifier_continue() =>","!first && (ch.is_es_identifier_continue() || ch == '\\u{200b}') =>")],
 'fn main() { assert!(Lexer::new("a\\\\u200b".chars()).read_token(true).is_err()); }',"an escaped zero width space in a name","it is accepted")
m('reread-order','L10',[(LX,"    pub fn reread_token(&mut self) -> Token {\n        let token = self.lookahead.pop_front().unwrap();","    pub fn reread_token(&mut self) -> Token {\n        let token = self.lookahead.pop_back().unwrap();")],
 'fn main() { let mut l = Lexer::new("a b".chars()); let a = l.read_token(true).unwrap(); l.peek_token(true).unwrap(); l.unread_token(a.clone()); assert_eq!(l.reread_token(), a); }',"two buffered tokens","reread gives the second one")
