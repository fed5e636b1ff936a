import sys; sys.path.insert(0,'/verif/tools')
from seedlib import make
PA="src/parser.rs"; CX="src/context.rs"; ST="src/stack.rs"; SA="src/state.rs"; TK="src/tokens.rs"; TR="src/track.rs"; AT="src/atom.rs"
CV="crates/easter/src/cover.rs"; PU="crates/easter/src/punc.rs"; ES="crates/estree/src/"
P='''#![allow(unused_imports, dead_code)]
use joker::track::Untrack;
use estree::IntoScript;
fn tree(s: &str) -> easter::stmt::Script { let mut t = esprit::script(s).unwrap_or_else(|e| panic!("{}: {:?}", s, e)); t.untrack(); t }
fn same(a: &str, b: &str) { assert_eq!(tree(a), tree(b), "{} and {}", a, b); }
fn bad(s: &str) { if let Ok(t) = esprit::script(s) { panic!("{} is accepted: {:?}", s, t); } }
fn json(s: &str) -> Result<easter::stmt::Script, String> { match serde_json::from_str::<serde_json::Value>(s).unwrap() { serde_json::Value::Object(o) => o.into_script().map_err(|e| e.to_string()), _ => panic!() } }
fn expr(s: &str) -> String { format!(r#"{{"type":"Program","body":[{{"type":"ExpressionStatement","expression":{}}}]}}"#, s) }
'''
only=sys.argv[1:]
def m(id,prop,edits,demo,needs,breaks):
    if only and id not in only: return
    make(id,prop,'parse',edits,P+demo,needs,breaks)
m('labels-into-functions','P06',[(CX,"""            iteration: false,
            switch: false,
            allow_in: true,
            labels: HashMap::new()
        }
    }
}""","""            iteration: false,
            switch: false,
            allow_in: true,
            labels: self.labels.clone()
        }
    }
}""")],
 'fn main() { bad("l: while (1) { x = function () { break l; }; }"); tree("l: while (1) break l;"); }',
 "a jump inside a function to a label outside of it","break and continue reach out of a nested function")
m('do-is-no-loop','P06',[(TK,"""            TokenData::Reserved(Reserved::Do)
          | TokenData::Reserved(Reserved::While)""","""            TokenData::Reserved(Reserved::While)""")],
 'fn main() { tree("a: do { continue a; } while (0);"); }',
 "a labelled continue of a do loop","the label of a do-while loop does not count as a loop's")
m('case-body-loses-switch','P06',[(PA,"""            let cases = this.switch_cases();
            replace(&mut this.context.switch, outer_switch);""","""            let cases = this.switch_cases();
            replace(&mut this.context.switch, false);
            let _ = outer_switch;""")],
 'fn main() { tree("switch (a) { case 1: switch (b) { } break; }"); }',
 "a break after a nested switch in a case","after a nested switch, break is illegal in the outer one")
m('allow-in-leaks','P02',[(PA,"""            let cons = self.allow_in(true, |this| this.assignment_expression())?;
            self.expect(TokenData::Colon)?;""","""            let cons = self.assignment_expression()?;
            self.expect(TokenData::Colon)?;""")],
 'fn main() { tree("for (x = a ? b in c : d; ; ) ;"); }',
 "an `in` between ? and : inside a for head","the middle operand of a conditional refuses `in` there")
m('shift-level','P02',[(ST,"""        self.precedence() >= right.precedence()""","""        let equal = match *self { Infix::Binop(_) => true, Infix::Logop(_) => false };
        self.precedence() > right.precedence() || (equal && self.precedence() == right.precedence())""")],
 'fn main() { same("a && b && c", "(a && b) && c"); }',
 "three operands of the same logical operator","repeated logical operators group to the right")
m('postfix-newline','P04',[(PA,"""        if !next.newline {
            match next.value {
                TokenData::Inc => { return Ok(Some(Postfix::Inc(next.location))); }
                TokenData::Dec => { return Ok(Some(Postfix::Dec(next.location))); }
                _ => { }
            }
        }""","""        match next.value {
            TokenData::Inc if !next.newline => { return Ok(Some(Postfix::Inc(next.location))); }
            TokenData::Dec => { return Ok(Some(Postfix::Dec(next.location))); }
            _ => { }
        }""")],
 'fn main() { same("a\\n--b", "a;--b"); }',
 "a line break before a decrement","the decrement is taken as postfix across the line break")
m('directive-call','P07',[(TK,"          | TokenData::Dec => !self.newline,","          | TokenData::Dec => !self.newline,\n            TokenData::LBrack => !self.newline,")],
 "fn main() { same(\"'use strict'\\n[0]\\nwith (a) ;\", \"('use strict')[0];with (a) ;\"); }",
 "a string at the beginning of a program, a line break, and an opening bracket","the string becomes a directive although the expression goes on")
m('getter-pattern','A02',[(CV,"""            _ => { return Err(Error::InvalidPropPatt(location)); }""","""            Prop::Regular(location, key, PropVal::Set(_, Patt::Simple(id), _)) => {
                PropPatt::Regular(location, key, Patt::Simple(AssignTarget::Id(id)))
            }
            _ => { return Err(Error::InvalidPropPatt(location)); }""")],
 'fn main() { bad("({ set a(b) {} } = c)"); tree("({ a: b } = c)"); }',
 "a setter inside an object assigned to","the setter is taken for a property pattern")
m('strict-await','P08',[("src/error.rs","""                if module {
                    Err(error)""","""                if !module {
                    Err(error)""")],
 'fn main() { assert!(esprit::program("await;").unwrap().strict().is_ok()); assert!(esprit::program("await;").unwrap().module().is_err()); }',
 "a program of unknown kind that uses await as a name, refined to strict or module","the checks for modules are made for strict scripts instead")
m('for-of-comma','P03',[(PA,"""        let obj = self.allow_in(true, |this| this.assignment_expression())?;
        self.expect(TokenData::RParen)?;""","""        let obj = self.allow_in(true, |this| this.expression())?;
        self.expect(TokenData::RParen)?;""")],
 'fn main() { bad("for (a of b, c) ;"); tree("for (a of (b, c)) ;"); }',
 "a comma in the iterated expression of a for-of loop","a comma expression is accepted there")
m('estree-directives','E01',[(ES+"node.rs","""        Some(i) => v.split_off(i),""","""        Some(i) => v.split_off(if i > 1 { i - 1 } else { i }),""")],
 """fn main() { let d = |s: &str| format!(r#"{{"type":"ExpressionStatement","expression":{{"type":"Literal","value":"{}"}}}}"#, s);
 let t = json(&format!(r#"{{"type":"Program","body":[{},{},{{"type":"EmptyStatement"}}]}}"#, d("a"), d("b"))).unwrap(); assert_eq!((t.dirs.len(), t.items.len()), (2, 1)); }""",
 "two directives before the first statement in an ESTree document","the last directive is read as a statement")
m('estree-prefix','E01',[(ES+"expr.rs","""                    ("--", true)  => Expr::PreDec(None, arg),
                    ("--", false) => Expr::PostDec(None, arg),""","""                    ("--", _)     => Expr::PreDec(None, arg),""")],
 """fn main() { let u = |p: bool| json(&expr(&format!(r#"{{"type":"UpdateExpression","operator":"--","argument":{{"type":"Identifier","name":"a"}},"prefix":{}}}"#, p))).unwrap(); assert!(u(true) != u(false)); }""",
 "a postfix decrement in an ESTree document","it is read as a prefix decrement")
m('estree-const','E02',[(ES+"decl.rs","""                Dtor::Simple(_, id, None) => {
                    return Err(Error::UninitializedPattern(Patt::Simple(id)));
                }""","""                Dtor::Simple(_, id, None) => {
                    ConstDtor::from_simple_init(id.clone(), ::easter::expr::Expr::Id(id))
                }""")],
 """fn main() { assert!(json(r#"{"type":"Program","body":[{"type":"VariableDeclaration","kind":"const","declarations":[{"type":"VariableDeclarator","id":{"type":"Identifier","name":"a"},"init":null}]}]}"#).is_err()); }""",
 "a constant without a value in an ESTree document","a value is made up")
m('slash-after-label','P05',[(SA,"""    fn matches_op(&mut self, expected: TokenData) -> Result<bool> {
        let token = self.read_op()?;""","""    fn matches_op(&mut self, expected: TokenData) -> Result<bool> {
        let token = if expected == TokenData::Question { self.read()? } else { self.read_op()? };""")],
 'fn main() { tree("x = a\\n/b/c"); tree("a++ / 2"); }',
 "a slash after an operand that is followed by nothing else","the slash may begin a regular expression there")
m('seq-span','P10',[(TR,"""        span(&v[0], &v[len - 1])""","""        span(&v[0], &v[if len > 2 { 2 } else { len - 1 }])""")],
 'fn main() { use joker::track::TrackingRef; let t = esprit::script("(a, b, c, d)").unwrap(); match t.items[0] { easter::stmt::StmtListItem::Stmt(easter::stmt::Stmt::Expr(_, ref e, _)) => assert_eq!(e.tracking_ref().unwrap().end.column, 11), _ => panic!() } }',
 "a comma expression of four or more parts","its location ends after the third")
m('untrack-nine','A03',[("crates/joker/src/track.rs","        for x in self {\n","        for x in self.iter_mut().take(8) {\n")],
 'fn main() { use joker::track::TrackingRef; let t = tree("f(a,b,c,d,e,g,h,i,j)"); match t.items[0] { easter::stmt::StmtListItem::Stmt(easter::stmt::Stmt::Expr(_, easter::expr::Expr::Call(_, _, ref v), _)) => assert!(v.iter().all(|x| x.tracking_ref().is_none())), _ => panic!() } }',
 "a list of nine or more parts","locations after the eighth part of a list are kept")
