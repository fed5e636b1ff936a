import sys
exec(open('/verif/tools/seeds_parse.py').read().split("m('labels-into-functions'")[0])
m('new-deref-once','P02',[(PA,"""                let mut base = self.arguments()?.append_to_new(new, base);
                while let Some(deref) = self.deref_opt()? {""","""                let mut base = self.arguments()?.append_to_new(new, base);
                if let Some(deref) = self.deref_opt()? {""")],
 'fn main() { same("new new a().b.c()", "new ((new a()).b.c)()"); }',"nested new with two member accesses between the argument lists","the outer arguments are taken for a call")
m('in-head-function','P03',[(CX,"""            function: true,
            iteration: false,
            switch: false,
            allow_in: true,""","""            function: true,
            iteration: false,
            switch: false,
            allow_in: self.allow_in,""")],
 'fn main() { tree("for (x = function () { var y = a in b; }; ; ) ;"); }',"a var with an `in` in a function in the head of a for loop","the operator is not recognized")
m('in-brackets','P03',[(PA,"""        self.reread(TokenData::LBrack);
        let expr = self.allow_in(true, |this| this.expression())?;
        let end""","""        self.reread(TokenData::LBrack);
        let expr = self.expression()?;
        let end""")],
 'fn main() { tree("for (x = a[b in c]; ; ) ;"); }',"an `in` inside a computed member in the head of a for loop","it is rejected")
m('let-of-name','P03',[(PA,"""        if !self.peek_op()?.first_binding() {
            self.lexer.unread_token(let_token);
            return self.for_expr();""","""        let of = TokenData::Identifier(Name::Atom(Atom::Of));
        if !self.peek_op()?.first_binding() || self.peek_op()?.value == of {
            self.lexer.unread_token(let_token);
            return self.for_expr();""")],
 'fn main() { tree("for (let of = 1; ; ) ;"); }',"a for loop that binds a variable called `of` with let","it is rejected")
m('let-line-break','P04',[(PA,"""                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if allow_decl && token.value""","""                    TokenData::Identifier(_) | TokenData::LBrace | TokenData::LBrack if allow_decl && !newline && token.value"""),
 (PA,"""                let token = self.lexer.reread_token();
                match self.peek_op()?.value {
                    TokenData::Colon => {""","""                let token = self.lexer.reread_token();
                let newline = self.peek_op()?.newline;
                match self.peek_op()?.value {
                    TokenData::Colon => {""")],
 'fn main() { same("let\\nx = 1", "let x = 1"); }',"a line break between let and the name","the declaration falls into two statements")
m('new-slash','P05',[(PA,"            has_args = has_args && self.peek_op()?.value == TokenData::LParen;","            has_args = has_args && self.peek()?.value == TokenData::LParen;"),
 (PA,"""        while let Some(deref) = self.deref_opt()? {
            base = deref.append_to(base);
        }
        let mut has_args""","""        while self.lexer.posn() != self.lexer.last_end() || !news.is_empty() {
            match self.peek()?.value { TokenData::LBrack | TokenData::Dot => {} _ => break }
            base = self.deref_opt()?.unwrap().append_to(base);
        }
        let mut has_args""")],
 'fn main() { tree("new a / b / c"); }',"a division right after new without arguments","the slash begins a regular expression")
m('label-slash','P05',[(PA,"            if !self.matches_op(TokenData::Colon)? {\n                self.lexer.unread_token(token);\n                break;","            if !self.matches(TokenData::Colon)? {\n                self.lexer.unread_token(token);\n                break;")],
 'fn main() { tree("a: b / c / d"); }',"a division at the beginning of a labelled statement","the slash begins a regular expression")
m('directive-slash','P05',[(PA,"            if !self.peek_op()?.expression_continuation() {","            if !self.peek()?.expression_continuation() {")],
 'fn main() { tree("\\"a\\" / b / c"); }',"a division of a string at the beginning of a program","the slash begins a regular expression")
m('for-let-slash','P05',[(PA,"        if !self.peek_op()?.first_binding() {\n            self.lexer.unread_token(let_token);","        if !self.peek()?.first_binding() {\n            self.lexer.unread_token(let_token);")],
 'fn main() { tree("for (let / b / c; ; ) ;"); }',"a division of a variable called let in the head of a for loop","the slash begins a regular expression")
m('last-label-only','P06',[(CX,"""        let mut label_strings = Vec::new();
        for id in labels.iter() {
            let label""","""        let mut label_strings = Vec::new();
        for (i, id) in labels.iter().enumerate() {
            // the label next to the loop is the loop's
            let label_type = if i + 2 < labels.len() { LabelType::Statement } else { label_type };
            let label""")],
 'fn main() { tree("a: b: c: while (1) continue a;"); }',"three labels of the same loop","continue does not reach the loop through the outermost one")
m('switch-in-function','P06',[(CX,"""            function: true,
            iteration: false,
            switch: false,""","""            function: true,
            iteration: false,
            switch: self.switch && !self.iteration,""")],
 'fn main() { bad("switch (a) { case 0: x = function () { break; }; }"); }',"a break in a function in a switch","it is accepted")
m('strict-until-block','P07',[(PA,"""        self.expect(TokenData::RBrace)?;
        self.context = outer;
        Ok(body)""","""        self.expect(TokenData::RBrace)?;
        let strict = if outer.function { self.context.strict } else { outer.strict };
        self.context = outer;
        self.context.strict = strict;
        Ok(body)""")],
 'fn main() { tree("function f() { function g() { \\"use strict\\"; } with (a) ; }"); }',"a strict function inside another function, and something after it","the rest of the outer function becomes strict")
m('rest-target','A02',[(CV,"""                            patt: expr.into_assign_patt()?
                        }));""","""                            patt: Patt::Simple(expr.into_assign_target()?)
                        }));""")],
 'fn main() { tree("[...[a]] = b"); }',"a pattern inside a rest element of an assignment pattern","it is rejected")
m('checks-reversed','P08',[(PA,"""            Program::Ambiguous(checks, script) => {
                for check in checks {
                    check.perform(false)?;
                }""","""            Program::Ambiguous(mut checks, script) => {
                while let Some(check) = checks.pop() {
                    check.perform(false)?;
                }""")],
 'fn main() { let e = esprit::program("var eval; with (a) ;").unwrap().strict().unwrap_err(); assert!(format!("{:?}", e).contains("IllegalStrictBinding"), "{:?}", e); }',"a program of unknown kind with two strictness faults","another one than the first is reported")
m('method-after-comment','P10',[(PA,"""                let end = self.lexer.last_end();
                Prop::Method(Fun {""","""                self.peek()?;
                let end = self.lexer.posn();
                Prop::Method(Fun {""")],
 'use joker::track::*;\nfn main() { let t = esprit::script("({a() {} , b: 1})").unwrap(); let s = format!("{:?}", t); let _ = s; match t.items[0] { easter::stmt::StmtListItem::Stmt(easter::stmt::Stmt::Expr(_, easter::expr::Expr::Obj(_, ref ps), _)) => assert_eq!(ps[0].tracking_ref().unwrap().end.column, 8), _ => panic!() } }',"a blank after a method","its location ends at the next token")
m('var-init-span','P10',[(PA,"Dtor::from_simple_init(id, rhs), ForHead::Var)","Dtor::Simple(span(&var_location, &rhs), id, Some(rhs)), ForHead::Var)")],
 'use joker::track::*; use easter::stmt::*;\nfn main() { let t = esprit::script("for (var x = 1;;) ;").unwrap(); match t.items[0] { StmtListItem::Stmt(Stmt::For(_, Some(ref h), _, _, _)) => match **h { ForHead::Var(_, ref d) => assert_eq!(d[0].tracking_ref().unwrap().start.column, 9), _ => panic!() }, _ => panic!() } }',"the first variable with a value in a for head","its declarator begins at the word var")
m('estree-for-in-init','E02',[(ES+"stmt.rs","                    (_, _, Some(init)) => {\n                        return Err(Error::UnexpectedInitializer(init));\n                    }\n                    (\"var\", lhs, _)","                    (\"var\", lhs, _)")],
 'fn main() { assert!(json(r#"{"type":"Program","body":[{"type":"ForInStatement","left":{"type":"VariableDeclaration","kind":"let","declarations":[{"type":"VariableDeclarator","id":{"type":"Identifier","name":"a"},"init":{"type":"ThisExpression"}}]},"right":{"type":"ThisExpression"},"body":{"type":"EmptyStatement"}}]}"#).is_err()); }',"a let with a value in the head of a for-in loop of an ESTree document","the value is dropped")
m('estree-setter-rest','E01',[(ES+"node.rs","""            if last.tag()? == Tag::RestElement {
                rest =""","""            if last.tag()? == Tag::RestElement && !objs.is_empty() {
                rest =""")],
 'fn main() { let t = json(&expr(r#"{"type":"FunctionExpression","id":null,"generator":false,"expression":false,"params":[{"type":"RestElement","argument":{"type":"Identifier","name":"a"}}],"body":{"type":"BlockStatement","body":[]}}"#)); assert!(t.is_ok(), "{:?}", t.err()); }',"a function whose only parameter is a rest parameter in an ESTree document","it is rejected")
m('estree-directive-late','E01',[(ES+"node.rs","        Some(i) => v.split_off(i),\n        None => Vec::new()","        Some(i) => v.split_off(i),\n        None => { let last = v.len().saturating_sub(1); if v.len() > 3 { v.split_off(last) } else { Vec::new() } }")],
 'fn main() { let d = r#"{"type":"ExpressionStatement","expression":{"type":"Literal","value":"a"}}"#; let t = json(&format!(r#"{{"type":"Program","body":[{},{},{},{}]}}"#, d, d, d, d)).unwrap(); assert_eq!(t.dirs.len(), 4); }',"four directives and nothing else","the last is taken for a statement")
