//! The common form into which both the reference parser's result and the
//! implementation's syntax tree are brought.
use reflex::{Kind, Pos};

pub type Loc = Option<(Pos, Pos)>;

#[derive(Clone, PartialEq, Debug)]
pub enum Val { Num(f64), Str(String), RegExp(String, String) }
impl Val {
    pub fn of(k: &Kind) -> Option<Val> {
        match *k {
            Kind::Number(v, _) => Some(Val::Num(v)),
            Kind::Str(ref s, _) => Some(Val::Str(s.clone())),
            Kind::RegExp(ref p, ref f) => Some(Val::RegExp(p.clone(), sorted(f))),
            _ => None,
        }
    }
}
pub fn sorted(f: &str) -> String { let mut v: Vec<char> = f.chars().collect(); v.sort(); v.into_iter().collect() }

#[derive(Clone, PartialEq, Debug)]
pub struct Node {
    pub kind: &'static str,
    pub text: String,
    pub loc: Loc,
    pub kids: Vec<Node>,
    /// What a literal denotes.
    pub val: Option<Val>,
    /// Reference only: the expression was written in parentheses.
    pub paren: bool,
}

pub fn n(kind: &'static str, loc: Loc, kids: Vec<Node>) -> Node { Node { kind, text: String::new(), loc, kids, val: None, paren: false } }
pub fn t(kind: &'static str, text: impl Into<String>, loc: Loc, kids: Vec<Node>) -> Node {
    Node { kind, text: text.into(), loc, kids, val: None, paren: false }
}
/// A literal.
pub fn l(kind: &'static str, k: &Kind, loc: Loc) -> Node { Node { val: Val::of(k), ..t(kind, crate::refparse::lit(k), loc, vec![]) } }
/// An absent optional part.
pub fn none() -> Node { n("-", None, vec![]) }
pub fn opt(x: Option<Node>) -> Node { x.unwrap_or_else(none) }

impl Node {
    pub fn show(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
    fn write(&self, o: &mut String) {
        if self.kids.is_empty() && self.text.is_empty() { o.push_str(self.kind); return; }
        o.push('(');
        o.push_str(self.kind);
        if !self.text.is_empty() { o.push(' '); o.push_str(&self.text); }
        for k in &self.kids { o.push(' '); k.write(o); }
        o.push(')');
    }
    pub fn size(&self) -> u64 { 1 + self.kids.iter().map(|k| k.size()).sum::<u64>() }
    pub fn each(&self, f: &mut impl FnMut(&Node)) { f(self); for k in &self.kids { k.each(f); } }
    pub fn any(&self, f: &impl Fn(&Node) -> bool) -> bool { f(self) || self.kids.iter().any(|k| k.any(f)) }

    /// The first structural difference (locations aside), with a key for it.
    pub fn diff(&self, other: &Node) -> Option<(String, String)> {
        let same = self.kind == other.kind && self.kids.len() == other.kids.len() && self.text == other.text;
        if !same {
            return Some((format!("{}:{}", self.kind, other.kind), format!("expected {}, got {}", self.show(), other.show())));
        }
        self.kids.iter().zip(&other.kids).find_map(|(a, b)| a.diff(b))
    }

    /// The first difference in meaning: sources of literals and marks of
    /// semicolons aside.
    pub fn value_diff(&self, other: &Node) -> Option<(String, String)> {
        let text = match (&self.val, &other.val) {
            (Some(a), Some(b)) => a == b,
            _ => self.kind == "Semi" || self.text == other.text,
        };
        if !(text && self.kind == other.kind && self.kids.len() == other.kids.len()) {
            return Some((format!("{}:{}", self.kind, other.kind), format!("expected {}, got {}", self.show(), other.show())));
        }
        self.kids.iter().zip(&other.kids).find_map(|(a, b)| a.value_diff(b))
    }
    /// The same locations, and marks of semicolons, throughout.
    pub fn same_places(&self, other: &Node) -> bool {
        self.loc == other.loc && (self.kind != "Semi" || self.text == other.text)
            && self.kids.iter().zip(&other.kids).all(|(a, b)| a.same_places(b))
    }
}
