//! The reference parser: the ECMAScript 2015 syntactic grammar, as much of it
//! as esprit documents as supported, by plain recursive descent over the
//! reference tokenizer, one grammar production at a time, without look-ahead
//! buffer, operator stack or iteration tricks.  Shares nothing with /repo.
use crate::tree::*;
use reflex::{Kind, Pos, Text, Tok};

#[derive(Clone, PartialEq, Debug)]
pub enum Why {
    Lex(reflex::Err),
    /// A token that no production allows here.
    Token,
    /// A missing semicolon that automatic insertion does not supply.
    Asi,
    /// An early error, named as in esprit's error type.
    Early(&'static str),
    /// Not an assignment target or pattern.
    Lhs,
    /// ECMAScript 2015 syntax outside the supported grammar.
    Unsupported(&'static str),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Reject {
    pub why: Why,
    /// The text ended too early: some continuation may be accepted.
    pub at_eof: bool,
    pub tok: Option<Tok>,
}

pub type R<T> = Result<T, Reject>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode { Script, Strict, Module }

#[derive(Clone)]
struct Ctx {
    strict: bool,
    module: bool,
    function: bool,
    generator: bool,
    iteration: bool,
    switch: bool,
    no_in: bool,
    labels: Vec<(String, bool)>,
}

pub struct Parser<'a> {
    text: &'a Text,
    at: usize,
    fresh: bool,
    end: Pos,
    c: Ctx,
    pub tokens: u64,
    /// "use module" occurred in the program's directives.
    pub use_module: bool,
    /// The last function body was strict code.
    body_strict: bool,
    depth: usize,
}

const STRICT_RESERVED: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];

pub fn parse(text: &Text, mode: Mode) -> (R<Node>, u64) {
    let (r, tokens, _) = parse_program(text, mode);
    (r, tokens)
}
/// Also: whether the program asks to be a module.
pub fn parse_program(text: &Text, mode: Mode) -> (R<Node>, u64, bool) {
    let mut p = Parser {
        text, at: 0, fresh: true, end: text.pos(0), tokens: 0, use_module: false, body_strict: false, depth: 0,
        c: Ctx { strict: mode != Mode::Script, module: mode == Mode::Module, function: false, generator: false, iteration: false, switch: false, no_in: false, labels: vec![] },
    };
    let r = p.program().map(|mut b| { strip(&mut b); b });
    (r, p.tokens, p.use_module)
}

/// Removes the marks that only pattern conversion needs.
fn strip(x: &mut Node) {
    x.kids.retain(|k| k.kind != "TrailingComma");
    x.kids.iter_mut().for_each(strip);
}

fn is(t: &Tok, p: &str) -> bool { matches!(t.kind, Kind::Punct(q) if q == p) }
fn word(t: &Tok, w: &str) -> bool { matches!(t.kind, Kind::Reserved(q) if q == w) }
/// An unescaped contextual keyword.
fn ctx(t: &Tok, w: &str) -> bool { matches!(t.kind, Kind::Ident(ref q, true) if q == w) }
fn ident(t: &Tok) -> bool { matches!(t.kind, Kind::Ident(..)) }

fn tok_loc(t: &Tok) -> Loc { Some((t.start, t.end)) }
pub fn lit(k: &Kind) -> String {
    match k {
        Kind::Number(v, src) => format!("{:x} {:?}", v.to_bits(), src),
        Kind::Str(v, src) => format!("{:?} {:?}", v, src),
        Kind::RegExp(p, f) => format!("{:?} {:?}", p, f),
        k => format!("{:?}", k),
    }
}

/// The binary operators, loosest level first.
pub const LEVELS: &[&[&str]] = &[
    &["||"], &["&&"], &["|"], &["^"], &["&"],
    &["==", "!=", "===", "!=="],
    &["<", ">", "<=", ">=", "instanceof", "in"],
    &["<<", ">>", ">>>"],
    &["+", "-"],
    &["*", "/", "%"],
];
pub const ASSIGN: &[&str] = &["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

impl<'a> Parser<'a> {
    // ------------------------------------------------------------ tokens

    /// The next token; `operand`: a regular expression may begin here.
    fn peek(&self, operand: bool) -> R<Tok> {
        match self.text.token(self.at, self.fresh, operand) {
            Ok((t, _)) => Ok(t),
            Err(e) => Err(self.lex(e)),
        }
    }
    fn lex(&self, e: reflex::Err) -> Reject {
        use reflex::Err::*;
        let at_eof = matches!(e, UnterminatedComment | UnterminatedRegExp(None) | UnterminatedString(None) | MissingExponent(None)
            | MissingBinaryDigits | MissingOctalDigits | MissingHexDigits | IncompleteWordEscape(None));
        Reject { why: Why::Lex(e), at_eof, tok: None }
    }
    fn next(&mut self, operand: bool) -> R<Tok> {
        match self.text.token(self.at, self.fresh, operand) {
            Ok((t, j)) => { self.at = j; self.fresh = false; self.end = t.end; self.tokens += 1; Ok(t) }
            Err(e) => Err(self.lex(e)),
        }
    }
    fn reject<T>(&self, why: Why, t: Tok) -> R<T> { Err(Reject { why, at_eof: t.kind == Kind::Eof, tok: Some(t) }) }
    fn unexpected<T>(&self, t: Tok) -> R<T> { self.reject(Why::Token, t) }
    fn early<T>(&self, e: &'static str, t: Tok) -> R<T> { Err(Reject { why: Why::Early(e), at_eof: false, tok: Some(t) }) }
    fn expect(&mut self, p: &str) -> R<Tok> {
        let t = self.next(true)?;
        if is(&t, p) { Ok(t) } else { self.unexpected(t) }
    }
    fn expect_word(&mut self, w: &str) -> R<Tok> {
        let t = self.next(true)?;
        if word(&t, w) { Ok(t) } else { self.unexpected(t) }
    }
    fn eat(&mut self, p: &str) -> R<bool> {
        if is(&self.peek(false)?, p) { self.next(false)?; Ok(true) } else { Ok(false) }
    }
    fn from(&self, start: Pos) -> Loc { Some((start, self.end)) }
    fn here(&self) -> R<Pos> { Ok(self.peek(true)?.start) }

    /// The end of a statement that automatic semicolon insertion may supply.
    fn semi(&mut self, newline_needed: bool) -> R<Node> {
        let t = self.peek(true)?;
        if is(&t, ";") { self.next(true)?; return Ok(t_semi(Some(t.start))); }
        if is(&t, "}") || t.kind == Kind::Eof || t.newline || !newline_needed { return Ok(t_semi(None)); }
        self.reject(Why::Asi, t)
    }

    // ------------------------------------------------------------ names

    fn check_name(&self, t: &Tok, binding: bool) -> R<()> {
        let s = match t.kind { Kind::Ident(ref s, _) => &s[..], _ => unreachable!() };
        if self.c.generator && s == "yield" { return Err(Reject { why: Why::Unsupported("yield"), at_eof: false, tok: Some(t.clone()) }); }
        if binding && self.c.strict && (s == "eval" || s == "arguments") { return self.early("IllegalStrictBinding", t.clone()); }
        if self.c.strict && STRICT_RESERVED.contains(&s) { return self.early("ContextualKeyword", t.clone()); }
        if self.c.module && s == "await" { return self.early("ContextualKeyword", t.clone()); }
        Ok(())
    }
    fn name_node(&self, kind: &'static str, t: &Tok) -> Node {
        match t.kind {
            Kind::Ident(ref s, _) => crate::tree::t(kind, s.clone(), tok_loc(t), vec![]),
            Kind::Reserved(w) => crate::tree::t(kind, w, tok_loc(t), vec![]),
            _ => unreachable!(),
        }
    }
    fn id(&mut self, binding: bool) -> R<Node> {
        let t = self.next(true)?;
        if !ident(&t) { return self.unexpected(t); }
        self.check_name(&t, binding)?;
        Ok(self.name_node("Id", &t))
    }
    /// BindingIdentifier or (unsupported) BindingPattern.
    fn binding(&mut self) -> R<Node> {
        let t = self.peek(true)?;
        if is(&t, "[") || is(&t, "{") { return Err(Reject { why: Why::Unsupported("destructuring"), at_eof: false, tok: Some(t) }); }
        self.id(true)
    }

    // ------------------------------------------------------------ programs

    fn program(&mut self) -> R<Node> {
        let mut kids = self.directives(true)?;
        loop {
            let t = self.peek(true)?;
            if t.kind == Kind::Eof { break; }
            kids.push(self.item(true)?);
        }
        Ok(n("Body", None, kids))
    }

    /// A directive prologue.
    fn directives(&mut self, top: bool) -> R<Vec<Node>> {
        let mut v = vec![];
        loop {
            let t = self.peek(true)?;
            let (value, source) = match t.kind { Kind::Str(ref v, ref s) => (v.clone(), s.clone()), _ => return Ok(v) };
            let save = (self.at, self.fresh, self.end);
            self.next(true)?;
            // A directive is an expression statement that is just the literal.
            let alone = {
                let u = self.peek(false)?;
                is(&u, ";") || is(&u, "}") || u.kind == Kind::Eof || (u.newline && !self.continues(&u))
            };
            if !alone {
                self.at = save.0; self.fresh = save.1; self.end = save.2;
                return Ok(v);
            }
            let semi = self.semi(true)?;
            let raw = &source[1..source.len() - 1];
            if raw == "use strict" { self.c.strict = true; }
            if raw == "use module" && top { self.use_module = true; }
            let _ = value;
            let mut d = crate::tree::l("Dir", &t.kind, self.from(t.start));
            d.kids.push(semi);
            v.push(d);
        }
    }
    /// The token continues the expression before it.
    fn continues(&self, u: &Tok) -> bool {
        match u.kind {
            Kind::Punct(p) => ["(", "[", ".", ",", "?", "="].contains(&p) || ASSIGN.contains(&p) || LEVELS.iter().any(|l| l.contains(&p)),
            Kind::Reserved(w) => w == "in" || w == "instanceof",
            _ => false,
        }
    }

    // ------------------------------------------------------------ functions

    fn function(&mut self, need_name: bool) -> R<Node> {
        let start = self.expect_word("function")?.start;
        let generator = self.eat("*")?;
        let t = self.peek(true)?;
        let id = if need_name || ident(&t) { self.id(true)? } else { none() };
        let (params, body) = self.function_rest(generator, &id)?;
        Ok(t_fun(if need_name { "FunDecl" } else { "Fun" }, generator, self.from(start), vec![id, params, body]))
    }
    fn function_rest(&mut self, generator: bool, id: &Node) -> R<(Node, Node)> {
        let params = self.params()?;
        let body = self.function_body(generator)?;
        self.strict_names(&[id, &params])?;
        Ok((params, body))
    }
    /// The name and parameters of a function are strict code if its body is.
    fn strict_names(&self, of: &[&Node]) -> R<()> {
        if !self.body_strict { return Ok(()); }
        let mut bad = None;
        for x in of { x.each(&mut |k| if k.kind == "Id" && bad.is_none() {
            if k.text == "eval" || k.text == "arguments" { bad = Some("IllegalStrictBinding"); }
            if STRICT_RESERVED.contains(&&k.text[..]) { bad = Some("ContextualKeyword"); }
        }); }
        match bad { Some(b) => Err(Reject { why: Why::Early(b), at_eof: false, tok: None }), None => Ok(()) }
    }
    fn params(&mut self) -> R<Node> {
        let start = self.expect("(")?.start;
        let mut kids = vec![];
        loop {
            let t = self.peek(true)?;
            if is(&t, ")") { break; }
            if is(&t, "...") {
                self.next(true)?;
                let p = self.binding()?;
                kids.push(n("Rest", self.from(t.start), vec![p]));
                break;
            }
            kids.push(self.binding()?);
            if !self.eat(",")? { break; }
        }
        self.expect(")")?;
        Ok(n("Params", self.from(start), kids))
    }
    fn function_body(&mut self, generator: bool) -> R<Node> {
        let outer = self.c.clone();
        self.c = Ctx { function: true, generator, iteration: false, switch: false, no_in: false, labels: vec![], ..outer.clone() };
        self.expect("{")?;
        let mut kids = self.directives(false)?;
        kids.extend(self.items()?);
        self.expect("}")?;
        self.body_strict = self.c.strict;
        self.c = outer;
        Ok(n("Body", None, kids))
    }

    // ------------------------------------------------------------ statements

    fn items(&mut self) -> R<Vec<Node>> {
        let mut v = vec![];
        loop {
            let t = self.peek(true)?;
            if is(&t, "}") || t.kind == Kind::Eof || word(&t, "case") || word(&t, "default") { return Ok(v); }
            v.push(self.item(true)?);
        }
    }

    fn statement(&mut self) -> R<Node> { self.item(false) }

    fn item(&mut self, decl: bool) -> R<Node> {
        let t = self.peek(true)?;
        let start = t.start;
        match t.kind {
            Kind::Punct("{") => self.block(),
            Kind::Punct(";") => { self.next(true)?; Ok(n("Empty", self.from(start), vec![])) }
            Kind::Reserved(w) => match w {
                "function" => if decl { self.function(true) } else { self.unexpected(t) },
                "const" => {
                    if !decl { return self.unexpected(t); }
                    self.next(true)?;
                    let mut kids = self.dtors(true)?;
                    kids.push(self.semi(true)?);
                    Ok(n("Const", self.from(start), kids))
                }
                "var" => {
                    self.next(true)?;
                    let mut kids = self.dtors(false)?;
                    kids.push(self.semi(true)?);
                    Ok(n("Var", self.from(start), kids))
                }
                "if" => {
                    self.next(true)?;
                    let test = self.paren()?;
                    let cons = self.statement()?;
                    let alt = if word(&self.peek(true)?, "else") { self.next(true)?; Some(self.statement()?) } else { None };
                    Ok(n("If", self.from(start), vec![test, cons, opt(alt)]))
                }
                "while" => {
                    self.next(true)?;
                    let test = self.paren()?;
                    let body = self.loop_body()?;
                    Ok(n("While", self.from(start), vec![test, body]))
                }
                "do" => {
                    self.next(true)?;
                    let body = self.loop_body()?;
                    self.expect_word("while")?;
                    let test = self.paren()?;
                    let semi = self.semi(false)?;
                    Ok(n("DoWhile", self.from(start), vec![body, test, semi]))
                }
                "for" => self.for_statement(),
                "break" | "continue" => {
                    self.next(true)?;
                    let u = self.peek(true)?;
                    let label = if ident(&u) && !u.newline { Some(self.id(false)?) } else { None };
                    match label {
                        None if w == "break" => if !self.c.iteration && !self.c.switch && self.ends(&u) { return self.early("IllegalBreak", t); },
                        None => if !self.c.iteration && self.ends(&u) { return self.early("IllegalContinue", t); },
                        Some(ref l) => match self.c.labels.iter().rev().find(|x| x.0 == l.text) {
                            None => return self.early("InvalidLabel", u),
                            Some(x) => if w == "continue" && !x.1 { return self.early("InvalidLabelType", u); },
                        },
                    }
                    let semi = self.semi(true)?;
                    Ok(n(if w == "break" { "Break" } else { "Cont" }, self.from(start), vec![opt(label), semi]))
                }
                "return" => {
                    self.next(true)?;
                    let u = self.peek(true)?;
                    let arg = if self.ends(&u) { None } else { Some(self.expression()?) };
                    let semi = self.semi(true)?;
                    if !self.c.function { return self.early("TopLevelReturn", t); }
                    Ok(n("Return", self.from(start), vec![opt(arg), semi]))
                }
                "throw" => {
                    self.next(true)?;
                    let u = self.peek(true)?;
                    if self.ends(&u) { return Err(Reject { why: Why::Early("ThrowArgument"), at_eof: u.kind == Kind::Eof, tok: Some(t) }); }
                    let arg = self.expression()?;
                    let semi = self.semi(true)?;
                    Ok(n("Throw", self.from(start), vec![arg, semi]))
                }
                "with" => {
                    self.next(true)?;
                    if self.c.strict { return self.early("StrictWith", t); }
                    let obj = self.paren()?;
                    let body = self.statement()?;
                    Ok(n("With", self.from(start), vec![obj, body]))
                }
                "switch" => self.switch(),
                "try" => {
                    self.next(true)?;
                    let body = self.block()?;
                    let u = self.peek(true)?;
                    let mut catch = None;
                    if word(&u, "catch") {
                        self.next(true)?;
                        self.expect("(")?;
                        let p = self.binding()?;
                        self.expect(")")?;
                        let b = self.block()?;
                        catch = Some(n("Catch", self.from(u.start), vec![p, b]));
                    }
                    let u = self.peek(true)?;
                    let fin = if word(&u, "finally") { self.next(true)?; Some(self.block()?) } else { None };
                    if catch.is_none() && fin.is_none() {
                        return self.reject(Why::Early("OrphanTry"), u);
                    }
                    Ok(n("Try", self.from(start), vec![body, opt(catch), opt(fin)]))
                }
                "debugger" => {
                    self.next(true)?;
                    let semi = self.semi(true)?;
                    Ok(n("Debugger", self.from(start), vec![semi]))
                }
                "import" | "export" if self.c.module => Err(Reject { why: Why::Unsupported("modules"), at_eof: false, tok: Some(t) }),
                _ => self.expression_statement(),
            },
            Kind::Ident(ref name, special) => {
                let save = (self.at, self.fresh, self.end, self.tokens);
                self.next(true)?;
                let u = self.peek(false)?;
                if is(&u, ":") {
                    self.at = save.0; self.fresh = save.1; self.end = save.2; self.tokens = save.3;
                    return self.labelled();
                }
                let is_let = special && name == "let" && (is(&u, "[") || (decl && (ident(&u) || is(&u, "{"))));
                if is_let {
                    if !decl { return self.unexpected(u); }
                    let mut kids = self.dtors(false)?;
                    kids.push(self.semi(true)?);
                    return Ok(n("Let", self.from(start), kids));
                }
                self.at = save.0; self.fresh = save.1; self.end = save.2; self.tokens = save.3;
                self.expression_statement()
            }
            _ => self.expression_statement(),
        }
    }

    /// No operand follows on this line.
    fn ends(&self, u: &Tok) -> bool { u.newline || is(u, ";") || is(u, "}") || u.kind == Kind::Eof }

    fn block(&mut self) -> R<Node> {
        let start = self.expect("{")?.start;
        let kids = self.items()?;
        self.expect("}")?;
        Ok(n("Block", self.from(start), kids))
    }

    fn loop_body(&mut self) -> R<Node> {
        let outer = std::mem::replace(&mut self.c.iteration, true);
        let r = self.statement();
        self.c.iteration = outer;
        r
    }

    fn expression_statement(&mut self) -> R<Node> {
        let start = self.here()?;
        let e = self.with_in(|p| p.expression())?;
        let semi = self.semi(true)?;
        Ok(n("Expr", self.from(start), vec![e, semi]))
    }

    fn labelled(&mut self) -> R<Node> {
        let depth = self.c.labels.len();
        let mut ids: Vec<(Tok, Node)> = vec![];
        loop {
            let t = self.peek(true)?;
            if !ident(&t) { break; }
            let save = (self.at, self.fresh, self.end, self.tokens);
            self.next(true)?;
            if !is(&self.peek(false)?, ":") { self.at = save.0; self.fresh = save.1; self.end = save.2; self.tokens = save.3; break; }
            self.next(false)?;
            self.check_name(&t, false)?;
            let id = self.name_node("Id", &t);
            ids.push((t.clone(), id));
        }
        let t = self.peek(true)?;
        let iteration = word(&t, "for") || word(&t, "while") || word(&t, "do");
        for (t, id) in &ids {
            if self.c.labels.iter().any(|l| l.0 == id.text) { return self.early("InvalidLabel", t.clone()); }
            self.c.labels.push((id.text.clone(), false));
        }
        for l in &mut self.c.labels[depth..] { l.1 = iteration; }
        let mut s = self.statement()?;
        self.c.labels.truncate(depth);
        for (t, id) in ids.into_iter().rev() { s = n("Label", self.from(t.start), vec![id, s]); }
        Ok(s)
    }

    fn switch(&mut self) -> R<Node> {
        let start = self.expect_word("switch")?.start;
        let disc = self.paren()?;
        let outer = std::mem::replace(&mut self.c.switch, true);
        self.expect("{")?;
        let mut kids = vec![disc];
        let mut found = false;
        loop {
            let t = self.peek(true)?;
            let mut case = vec![];
            if word(&t, "case") {
                self.next(true)?;
                case.push(self.with_in(|p| p.expression())?);
            } else if word(&t, "default") {
                if found { return self.early("DuplicateDefault", t); }
                found = true;
                self.next(true)?;
                case.push(none());
            } else { break; }
            self.expect(":")?;
            case.extend(self.items()?);
            kids.push(n("Case", self.from(t.start), case));
        }
        self.expect("}")?;
        self.c.switch = outer;
        Ok(n("Switch", self.from(start), kids))
    }

    fn dtor(&mut self, init_needed: bool) -> R<Node> {
        let start = self.here()?;
        let id = self.binding()?;
        self.dtor_rest(start, id, init_needed)
    }
    fn dtor_rest(&mut self, start: Pos, id: Node, init_needed: bool) -> R<Node> {
        let t = self.peek(true)?;
        let init = if is(&t, "=") { self.next(true)?; Some(self.assignment()?) }
            else if init_needed { return self.unexpected(t) }
            else { None };
        Ok(n("Dtor", self.from(start), vec![id, opt(init)]))
    }
    fn dtors(&mut self, init_needed: bool) -> R<Vec<Node>> {
        let mut v = vec![self.dtor(init_needed)?];
        while is(&self.peek(true)?, ",") { self.next(true)?; v.push(self.dtor(init_needed)?); }
        Ok(v)
    }

    fn paren(&mut self) -> R<Node> {
        self.expect("(")?;
        let e = self.with_in(|p| p.expression())?;
        self.expect(")")?;
        Ok(e)
    }

    fn for_statement(&mut self) -> R<Node> {
        let start = self.expect_word("for")?.start;
        self.expect("(")?;
        let t = self.peek(true)?;
        let kw = match t.kind {
            Kind::Reserved("var") => "var",
            Kind::Reserved("const") => "const",
            Kind::Ident(ref s, true) if s == "let" => {
                let save = (self.at, self.fresh, self.end, self.tokens);
                self.next(true)?;
                let u = self.peek(false)?;
                self.at = save.0; self.fresh = save.1; self.end = save.2; self.tokens = save.3;
                if ident(&u) || is(&u, "[") || is(&u, "{") { "let" } else { "" }
            }
            _ => "",
        };
        if kw != "" {
            self.next(true)?;
            let dstart = self.here()?;
            let id = self.binding()?;
            let id_end = self.end;
            let u = self.peek(true)?;
            if word(&u, "in") || ctx(&u, "of") {
                self.next(true)?;
                let kind = match (kw, word(&u, "in")) {
                    ("var", true) => "InVar", ("let", true) => "InLet", (_, true) => "InConst",
                    ("var", false) => "OfVar", ("let", false) => "OfLet", (_, false) => "OfConst",
                };
                let head = n(kind, Some((t.start, id_end)), vec![id]);
                return self.for_each_rest(start, head, word(&u, "in"));
            }
            let first = self.no_in(|p| p.dtor_rest(dstart, id, kw == "const"))?;
            if kw == "var" && first.kids[1].kind != "-" && word(&self.peek(false)?, "in") {
                // Annex B.3.6
                let head_end = self.end;
                self.next(false)?;
                let head = n("InVarInit", Some((t.start, head_end)), first.kids);
                return self.for_each_rest(start, head, true);
            }
            let mut ds = vec![first];
            while is(&self.peek(false)?, ",") { self.next(false)?; ds.push(self.no_in(|p| p.dtor(kw == "const"))?); }
            self.expect(";")?;
            let head = n(match kw { "var" => "HeadVar", "let" => "HeadLet", _ => "HeadConst" }, self.from(t.start), ds);
            return self.for_rest(start, head);
        }
        if is(&t, ";") { self.next(true)?; return self.for_rest(start, none()); }
        let e = self.no_in(|p| p.expression())?;
        let u = self.peek(false)?;
        if is(&u, ";") {
            self.next(false)?;
            let head = n("HeadExpr", self.from(t.start), vec![e]);
            return self.for_rest(start, head);
        }
        if word(&u, "in") || ctx(&u, "of") {
            if ctx(&u, "of") && ctx(&t, "let") { return self.early("ForOfLetExpr", t); }
            if e.kind == "Seq" && !e.paren { return self.reject(Why::Lhs, u); }
            let patt = self.pattern(e, &u)?;
            self.next(false)?;
            return self.for_each_rest(start, patt, word(&u, "in"));
        }
        self.unexpected(u)
    }
    fn for_rest(&mut self, start: Pos, head: Node) -> R<Node> {
        let test = if is(&self.peek(true)?, ";") { None } else { Some(self.with_in(|p| p.expression())?) };
        self.expect(";")?;
        let update = if is(&self.peek(true)?, ")") { None } else { Some(self.with_in(|p| p.expression())?) };
        self.expect(")")?;
        let body = self.loop_body()?;
        Ok(n("For", self.from(start), vec![head, opt(test), opt(update), body]))
    }
    fn for_each_rest(&mut self, start: Pos, head: Node, of_in: bool) -> R<Node> {
        let obj = self.with_in(|p| if of_in { p.expression() } else { p.assignment() })?;
        self.expect(")")?;
        let body = self.loop_body()?;
        Ok(n(if of_in { "ForIn" } else { "ForOf" }, self.from(start), vec![head, obj, body]))
    }

    // ------------------------------------------------------------ expressions

    fn with_in<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> { self.set_no_in(false, f) }
    fn no_in<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> { self.set_no_in(true, f) }
    fn set_no_in<T>(&mut self, v: bool, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let outer = std::mem::replace(&mut self.c.no_in, v);
        let r = f(self);
        self.c.no_in = outer;
        r
    }

    fn expression(&mut self) -> R<Node> {
        let start = self.here()?;
        let first = self.assignment()?;
        if !is(&self.peek(false)?, ",") { return Ok(first); }
        let mut kids = vec![first];
        while self.eat(",")? { kids.push(self.assignment()?); }
        Ok(n("Seq", self.from(start), kids))
    }

    fn assignment(&mut self) -> R<Node> {
        self.depth += 1;
        let start = self.here()?;
        let left = self.conditional()?;
        let t = self.peek(false)?;
        let r = match t.kind {
            Kind::Punct("=") => {
                let left = self.pattern(left, &t)?;
                self.next(false)?;
                let right = self.assignment()?;
                Ok(n("Assign", self.from(start), vec![left, right]))
            }
            Kind::Punct(p) if ASSIGN.contains(&p) => {
                let left = self.target(left, &t)?;
                self.next(false)?;
                let right = self.assignment()?;
                Ok(crate::tree::t("BinAssign", p, self.from(start), vec![crate::tree::t("Op", p, tok_loc(&t), vec![]), left, right]))
            }
            _ => Ok(left),
        };
        self.depth -= 1;
        r
    }

    fn conditional(&mut self) -> R<Node> {
        let start = self.here()?;
        let test = self.binary(0)?;
        if !self.eat("?")? { return Ok(test); }
        let cons = self.with_in(|p| p.assignment())?;
        self.expect(":")?;
        let alt = self.assignment()?;
        Ok(n("Cond", self.from(start), vec![test, cons, alt]))
    }

    fn binary(&mut self, level: usize) -> R<Node> {
        if level == LEVELS.len() { return self.unary(); }
        let start = self.here()?;
        let mut left = self.binary(level + 1)?;
        loop {
            let t = self.peek(false)?;
            let op = match t.kind {
                Kind::Punct(p) if LEVELS[level].contains(&p) => p,
                Kind::Reserved(w) if LEVELS[level].contains(&w) && !(w == "in" && self.c.no_in) => w,
                _ => return Ok(left),
            };
            self.next(false)?;
            let right = self.binary(level + 1)?;
            let kind = if op == "||" || op == "&&" { "Logop" } else { "Binop" };
            left = crate::tree::t(kind, op, self.from(start), vec![crate::tree::t("Op", op, tok_loc(&t), vec![]), left, right]);
        }
    }

    fn unary(&mut self) -> R<Node> {
        let t = self.peek(true)?;
        let op = match t.kind {
            Kind::Punct(p) if ["+", "-", "~", "!", "++", "--"].contains(&p) => p,
            Kind::Reserved(w) if ["delete", "void", "typeof"].contains(&w) => w,
            _ => return self.postfix(),
        };
        self.next(true)?;
        let arg = self.unary()?;
        let u = self.peek(false)?;
        match op {
            "++" | "--" => {
                let arg = self.target(arg, &u)?;
                Ok(n(if op == "++" { "PreInc" } else { "PreDec" }, self.from(t.start), vec![arg]))
            }
            _ => Ok(crate::tree::t("Unop", op, self.from(t.start), vec![crate::tree::t("Op", op, tok_loc(&t), vec![]), arg])),
        }
    }

    fn postfix(&mut self) -> R<Node> {
        let start = self.here()?;
        let arg = self.lhs()?;
        let t = self.peek(false)?;
        if t.newline || !(is(&t, "++") || is(&t, "--")) { return Ok(arg); }
        let arg = self.target(arg, &t)?;
        self.next(false)?;
        Ok(n(if is(&t, "++") { "PostInc" } else { "PostDec" }, self.from(start), vec![arg]))
    }

    /// LeftHandSideExpression
    fn lhs(&mut self) -> R<Node> {
        let start = self.here()?;
        let mut e = if word(&self.peek(true)?, "new") { self.new_expression()? } else { self.primary()? };
        loop {
            let t = self.peek(false)?;
            match t.kind {
                Kind::Punct("(") => {
                    let args = self.arguments()?;
                    let mut kids = vec![e];
                    kids.extend(args);
                    e = n("Call", self.from(start), kids);
                }
                _ => match self.deref(start, e)? { Ok(d) => e = d, Err(d) => return Ok(d) },
            }
        }
    }
    /// One `.name` or `[expr]`, if there is one.
    fn deref(&mut self, start: Pos, e: Node) -> R<Result<Node, Node>> {
        let t = self.peek(false)?;
        if is(&t, ".") {
            self.next(false)?;
            let k = self.next(true)?;
            if !matches!(k.kind, Kind::Ident(..) | Kind::Reserved(_)) { return self.unexpected(k); }
            let key = self.name_node("DotKey", &k);
            return Ok(Ok(n("Dot", self.from(start), vec![e, key])));
        }
        if is(&t, "[") {
            self.next(false)?;
            let i = self.with_in(|p| p.expression())?;
            self.expect("]")?;
            return Ok(Ok(n("Brack", self.from(start), vec![e, i])));
        }
        Ok(Err(e))
    }
    /// "new" ...: with arguments a MemberExpression, without a NewExpression.
    fn new_expression(&mut self) -> R<Node> {
        let new = self.expect_word("new")?;
        let t = self.peek(true)?;
        if is(&t, ".") {
            self.next(true)?;
            let k = self.next(true)?;
            if !ctx(&k, "target") { return self.unexpected(k); }
            if !self.c.function { return self.unexpected(k); }
            return Ok(n("NewTarget", self.from(new.start), vec![]));
        }
        let mut callee = if word(&t, "new") { self.new_expression()? } else { self.primary()? };
        loop {
            match self.deref(t.start, callee)? {
                Ok(d) => callee = d,
                Err(d) => { callee = d; break; }
            }
        }
        let mut kids = vec![callee];
        if is(&self.peek(false)?, "(") { kids.extend(self.arguments()?); }
        Ok(n("New", self.from(new.start), kids))
    }

    fn arguments(&mut self) -> R<Vec<Node>> {
        self.expect("(")?;
        let mut v = vec![];
        if is(&self.peek(true)?, ")") { self.next(true)?; return Ok(v); }
        self.with_in(|p| loop {
            v.push(p.spread_or_assignment()?);
            let t = p.next(false)?;
            if is(&t, ")") { return Ok(()); }
            if !is(&t, ",") { return p.unexpected(t); }
        })?;
        Ok(v)
    }
    fn spread_or_assignment(&mut self) -> R<Node> {
        let t = self.peek(true)?;
        if is(&t, "...") {
            self.next(true)?;
            let e = self.assignment()?;
            return Ok(n("Spread", self.from(t.start), vec![e]));
        }
        self.assignment()
    }

    fn primary(&mut self) -> R<Node> {
        let t = self.peek(true)?;
        let l = tok_loc(&t);
        let simple = |p: &mut Self, node: Node| { p.next(true)?; Ok(node) };
        match t.kind {
            Kind::Ident(..) => self.id(false),
            Kind::Reserved("this") => simple(self, n("This", l, vec![])),
            Kind::Reserved("null") => simple(self, n("Null", l, vec![])),
            Kind::Reserved("true") => simple(self, n("True", l, vec![])),
            Kind::Reserved("false") => simple(self, n("False", l, vec![])),
            Kind::Reserved("function") => self.function(false),
            Kind::Number(..) => simple(self, crate::tree::l("Number", &t.kind, l)),
            Kind::Str(..) => simple(self, crate::tree::l("String", &t.kind, l)),
            Kind::RegExp(..) => simple(self, crate::tree::l("RegExp", &t.kind, l)),
            Kind::Punct("(") => {
                let mut e = self.paren()?;
                e.paren = true;
                Ok(e)
            }
            Kind::Punct("[") => {
                self.next(true)?;
                let mut kids = vec![];
                let mut comma_after_spread = false;
                self.with_in(|p| loop {
                    let u = p.peek(true)?;
                    if is(&u, "]") { break Ok(()); }
                    if is(&u, ",") { p.next(true)?; kids.push(n("Hole", None, vec![])); continue; }
                    kids.push(p.spread_or_assignment()?);
                    let u = p.peek(false)?;
                    if is(&u, "]") { break Ok(()); }
                    if !is(&u, ",") { break p.unexpected(u); }
                    p.next(false)?;
                    if is(&p.peek(true)?, "]") && kids.last().unwrap().kind == "Spread" { comma_after_spread = true; }
                })?;
                self.expect("]")?;
                let mut e = n("Arr", self.from(t.start), kids);
                if comma_after_spread { e.text = "".into(); e.kids.push(n("TrailingComma", None, vec![])); }
                Ok(e)
            }
            Kind::Punct("{") => {
                self.next(true)?;
                let mut kids = vec![];
                loop {
                    if is(&self.peek(true)?, "}") { break; }
                    kids.push(self.property()?);
                    let u = self.peek(true)?;
                    if is(&u, "}") { break; }
                    if !is(&u, ",") { return self.unexpected(u); }
                    self.next(true)?;
                }
                self.expect("}")?;
                Ok(n("Obj", self.from(t.start), kids))
            }
            _ => self.unexpected(t),
        }
    }

    fn key_start(&self, t: &Tok) -> bool { matches!(t.kind, Kind::Ident(..) | Kind::Reserved(_) | Kind::Str(..) | Kind::Number(..)) }
    fn key(&mut self) -> R<Node> {
        let t = self.next(true)?;
        match t.kind {
            Kind::Ident(..) | Kind::Reserved(_) => Ok(self.name_node("KeyId", &t)),
            Kind::Str(..) => Ok(crate::tree::l("KeyStr", &t.kind, tok_loc(&t))),
            Kind::Number(..) => Ok(crate::tree::l("KeyNum", &t.kind, tok_loc(&t))),
            Kind::Punct("[") => Err(Reject { why: Why::Unsupported("computed key"), at_eof: false, tok: Some(t) }),
            _ => self.unexpected(t),
        }
    }
    fn property(&mut self) -> R<Node> {
        let t = self.peek(true)?;
        if is(&t, "*") {
            self.next(true)?;
            let key = self.key()?;
            let (params, body) = self.function_rest(true, &none())?;
            return Ok(t_fun("Method", true, self.from(t.start), vec![key, params, body]));
        }
        let key = self.key()?;
        let u = self.peek(true)?;
        if (ctx(&t, "get") || ctx(&t, "set")) && self.key_start(&u) {
            let key = self.key()?;
            let open = self.expect("(")?.start;
            let param = if ctx(&t, "set") { Some(self.binding()?) } else { None };
            self.expect(")")?;
            let body = self.function_body(false)?;
            self.strict_names(&param.iter().collect::<Vec<_>>())?;
            let val = match param {
                Some(p) => n("Set", self.from(open), vec![p, body]),
                None => n("Get", self.from(open), vec![body]),
            };
            return Ok(n("Prop", self.from(t.start), vec![key, val]));
        }
        match u.kind {
            Kind::Punct(":") => {
                self.next(true)?;
                let v = self.with_in(|p| p.assignment())?;
                Ok(n("Prop", self.from(t.start), vec![key, v]))
            }
            Kind::Punct("(") => {
                let (params, body) = self.function_rest(false, &none())?;
                Ok(t_fun("Method", false, self.from(t.start), vec![key, params, body]))
            }
            Kind::Punct(",") | Kind::Punct("}") if ident(&t) => {
                self.check_name(&t, false)?;
                Ok(n("Shorthand", tok_loc(&t), vec![self.name_node("Id", &t)]))
            }
            // A reserved word cannot be a shorthand.
            Kind::Punct(",") | Kind::Punct("}") if matches!(t.kind, Kind::Reserved(_)) => self.unexpected(t),
            Kind::Punct("=") if ident(&t) => Err(Reject { why: Why::Unsupported("default pattern"), at_eof: false, tok: Some(u) }),
            _ => self.unexpected(u),
        }
    }

    // ------------------------------------------------------------ cover grammar

    fn target(&self, e: Node, at: &Tok) -> R<Node> { target_of(e).map_err(|w| Reject { why: w, at_eof: false, tok: Some(at.clone()) }) }
    fn pattern(&self, e: Node, at: &Tok) -> R<Node> { pattern_of(e).map_err(|w| Reject { why: w, at_eof: false, tok: Some(at.clone()) }) }
}

fn t_semi(at: Option<Pos>) -> Node {
    match at {
        Some(p) => t("Semi", "explicit", Some((p, p)), vec![]),
        None => t("Semi", "inserted", None, vec![]),
    }
}
fn t_fun(kind: &'static str, generator: bool, loc: Loc, kids: Vec<Node>) -> Node { t(kind, if generator { "*" } else { "" }, loc, kids) }

/// A simple assignment target.
pub fn target_of(e: Node) -> Result<Node, Why> {
    match e.kind { "Id" | "Dot" | "Brack" => Ok(e), _ => Err(Why::Lhs) }
}

/// An assignment pattern (without defaults).
pub fn pattern_of(e: Node) -> Result<Node, Why> {
    match e.kind {
        "Obj" | "Arr" if e.paren => Err(Why::Early("ParenthesizedPattern")),
        "Obj" => {
            let mut kids = vec![];
            for p in e.kids {
                kids.push(match p.kind {
                    "Shorthand" => p,
                    "Prop" if p.kids[1].kind != "Get" && p.kids[1].kind != "Set" => {
                        let mut it = p.kids.into_iter();
                        let (k, v) = (it.next().unwrap(), it.next().unwrap());
                        n("PropPatt", p.loc, vec![k, pattern_of(v)?])
                    }
                    _ => return Err(Why::Lhs),
                });
            }
            Ok(n("ObjPatt", e.loc, kids))
        }
        "Arr" => {
            let mut kids = vec![];
            let len = e.kids.len();
            let trailing = e.kids.last().map_or(false, |k| k.kind == "TrailingComma");
            for (i, p) in e.kids.into_iter().enumerate() {
                kids.push(match p.kind {
                    "Hole" => p,
                    "Spread" if i + 2 == len && trailing => return Err(Why::Early("CommaAfterRest")),
                    "Spread" if i + 1 == len => n("Rest", p.loc, vec![pattern_of(p.kids.into_iter().next().unwrap())?]),
                    "Spread" => return Err(Why::Lhs),
                    _ => pattern_of(p)?,
                });
            }
            Ok(n("ArrPatt", e.loc, kids))
        }
        _ => target_of(e),
    }
}
