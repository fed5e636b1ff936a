//! Offline stand-in for syn 0.10 (yanked): the part of its API that
//! /repo/crates/derive uses, on top of syn 0.11, which is in the cargo cache.
//! The parsing side (MacroInput, generics, types) is syn 0.11's; the small
//! expression/pattern AST that derive builds is defined and printed here,
//! because its struct shapes differ between 0.10 and 0.11.
extern crate quote;
extern crate syn011;

use quote::{Tokens, ToTokens};

// Everything below that has the same name shadows the 0.11 item.
pub use syn011::*;
pub type MacroInput = syn011::DeriveInput;
pub type DeriveInput = syn011::DeriveInput;

pub fn parse_macro_input(input: &str) -> Result<MacroInput, String> { syn011::parse_derive_input(input) }
pub fn parse_derive_input(input: &str) -> Result<DeriveInput, String> { syn011::parse_derive_input(input) }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Expr { pub node: ExprKind, pub attrs: Vec<Attribute> }

impl From<ExprKind> for Expr {
    fn from(node: ExprKind) -> Expr { Expr { node: node, attrs: vec![] } }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ExprKind {
    Path(Option<QSelf>, Path),
    Unary(UnOp, Box<Expr>),
    MethodCall(Ident, Vec<Ty>, Vec<Expr>),
    Call(Box<Expr>, Vec<Expr>),
    Field(Box<Expr>, Ident),
    TupField(Box<Expr>, usize),
    Assign(Box<Expr>, Box<Expr>),
    AddrOf(Mutability, Box<Expr>),
    Tup(Vec<Expr>),
    Paren(Box<Expr>),
    Match(Box<Expr>, Vec<Arm>),
    Block(BlockCheckMode, Block),
    Lit(Lit),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BlockCheckMode { Default, Unsafe }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Block { pub stmts: Vec<Stmt> }

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stmt { Expr(Box<Expr>), Semi(Box<Expr>) }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Arm {
    pub attrs: Vec<Attribute>,
    pub pats: Vec<Pat>,
    pub guard: Option<Box<Expr>>,
    pub body: Box<Expr>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Pat {
    Wild,
    Ident(BindingMode, Ident, Option<Box<Pat>>),
    Struct(Path, Vec<FieldPat>, bool),
    TupleStruct(Path, Vec<Pat>, Option<usize>),
    Path(Option<QSelf>, Path),
    Tuple(Vec<Pat>, Option<usize>),
    Ref(Box<Pat>, Mutability),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct FieldPat { pub ident: Ident, pub pat: Box<Pat>, pub is_shorthand: bool }

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum BindingMode { ByRef(Mutability), ByValue(Mutability) }

fn sep<T: ToTokens>(tokens: &mut Tokens, items: &[T], s: &str) {
    for x in items { x.to_tokens(tokens); tokens.append(s); }
}
fn muty(tokens: &mut Tokens, m: Mutability) {
    if m == Mutability::Mutable { tokens.append("mut"); }
}

impl ToTokens for Expr {
    fn to_tokens(&self, tokens: &mut Tokens) {
        match self.node {
            ExprKind::Path(_, ref p) => p.to_tokens(tokens),
            ExprKind::Unary(op, ref e) => { op.to_tokens(tokens); e.to_tokens(tokens); }
            ExprKind::MethodCall(ref id, ref tys, ref args) => {
                args[0].to_tokens(tokens);
                tokens.append(".");
                id.to_tokens(tokens);
                if !tys.is_empty() {
                    tokens.append("::"); tokens.append("<");
                    sep(tokens, tys, ",");
                    tokens.append(">");
                }
                tokens.append("(");
                sep(tokens, &args[1..], ",");
                tokens.append(")");
            }
            ExprKind::Call(ref f, ref args) => {
                f.to_tokens(tokens);
                tokens.append("(");
                sep(tokens, args, ",");
                tokens.append(")");
            }
            ExprKind::Field(ref e, ref id) => { e.to_tokens(tokens); tokens.append("."); id.to_tokens(tokens); }
            ExprKind::TupField(ref e, n) => { e.to_tokens(tokens); tokens.append("."); tokens.append(&n.to_string()); }
            ExprKind::Assign(ref l, ref r) => { l.to_tokens(tokens); tokens.append("="); r.to_tokens(tokens); }
            ExprKind::AddrOf(m, ref e) => { tokens.append("&"); muty(tokens, m); e.to_tokens(tokens); }
            ExprKind::Tup(ref es) => { tokens.append("("); sep(tokens, es, ","); tokens.append(")"); }
            ExprKind::Paren(ref e) => { tokens.append("("); e.to_tokens(tokens); tokens.append(")"); }
            ExprKind::Match(ref e, ref arms) => {
                tokens.append("match");
                e.to_tokens(tokens);
                tokens.append("{");
                sep(tokens, arms, ",");
                tokens.append("}");
            }
            ExprKind::Block(mode, ref b) => {
                if mode == BlockCheckMode::Unsafe { tokens.append("unsafe"); }
                b.to_tokens(tokens);
            }
            ExprKind::Lit(ref l) => l.to_tokens(tokens),
        }
    }
}

impl ToTokens for Block {
    fn to_tokens(&self, tokens: &mut Tokens) {
        tokens.append("{");
        for s in &self.stmts { s.to_tokens(tokens); }
        tokens.append("}");
    }
}

impl ToTokens for Stmt {
    fn to_tokens(&self, tokens: &mut Tokens) {
        match *self {
            Stmt::Expr(ref e) => e.to_tokens(tokens),
            Stmt::Semi(ref e) => { e.to_tokens(tokens); tokens.append(";"); }
        }
    }
}

impl ToTokens for Arm {
    fn to_tokens(&self, tokens: &mut Tokens) {
        for (i, p) in self.pats.iter().enumerate() {
            if i > 0 { tokens.append("|"); }
            p.to_tokens(tokens);
        }
        if let Some(ref g) = self.guard { tokens.append("if"); g.to_tokens(tokens); }
        tokens.append("=>");
        self.body.to_tokens(tokens);
    }
}

fn tuple(tokens: &mut Tokens, pats: &[Pat], dots: Option<usize>) {
    tokens.append("(");
    for (i, p) in pats.iter().enumerate() {
        if dots == Some(i) { tokens.append(".."); tokens.append(","); }
        p.to_tokens(tokens);
        tokens.append(",");
    }
    if dots == Some(pats.len()) { tokens.append(".."); }
    tokens.append(")");
}

impl ToTokens for Pat {
    fn to_tokens(&self, tokens: &mut Tokens) {
        match *self {
            Pat::Wild => tokens.append("_"),
            Pat::Ident(mode, ref id, ref sub) => {
                match mode {
                    BindingMode::ByRef(m) => { tokens.append("ref"); muty(tokens, m); }
                    BindingMode::ByValue(m) => muty(tokens, m),
                }
                id.to_tokens(tokens);
                if let Some(ref p) = *sub { tokens.append("@"); p.to_tokens(tokens); }
            }
            Pat::Struct(ref path, ref fields, dots) => {
                path.to_tokens(tokens);
                tokens.append("{");
                sep(tokens, fields, ",");
                if dots { tokens.append(".."); }
                tokens.append("}");
            }
            Pat::TupleStruct(ref path, ref pats, dots) => { path.to_tokens(tokens); tuple(tokens, pats, dots); }
            Pat::Path(_, ref path) => path.to_tokens(tokens),
            Pat::Tuple(ref pats, dots) => tuple(tokens, pats, dots),
            Pat::Ref(ref p, m) => { tokens.append("&"); muty(tokens, m); p.to_tokens(tokens); }
        }
    }
}

impl ToTokens for FieldPat {
    fn to_tokens(&self, tokens: &mut Tokens) {
        if !self.is_shorthand { self.ident.to_tokens(tokens); tokens.append(":"); }
        self.pat.to_tokens(tokens);
    }
}
