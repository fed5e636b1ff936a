//! esprit's syntax trees, brought into the common form.
use crate::canon;
use crate::tree::*;
use easter::decl::*;
use easter::expr::*;
use easter::fun::*;
use easter::id::Id;
use easter::obj::*;
use easter::patt::*;
use easter::punc::*;
use easter::stmt::*;
use joker::token::*;
use joker::track::{Span, TrackingRef};
use joker::word::Name;
use reflex::Kind;

pub fn loc(s: &Option<Span>) -> Loc { s.as_ref().map(|s| (canon::pos(s.start), canon::pos(s.end))) }

fn name(x: &Name) -> String {
    match *x { Name::Atom(a) => canon::atom(a).to_string(), Name::String(ref s) => s.clone() }
}
fn number(x: &NumberLiteral) -> Kind { canon::kind(&TokenData::Number(x.clone())) }
fn string(x: &StringLiteral) -> Kind { canon::kind(&TokenData::String(x.clone())) }
fn regexp(x: &RegExpLiteral) -> Kind { Kind::RegExp(x.pattern.clone(), x.flags.iter().collect()) }

thread_local! {
    /// The kinds of the nodes met whose tracked location is not their own.
    pub static MISTRACKED: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(vec![]) };
}
fn tracked<T: TrackingRef>(x: &T, node: Node) -> Node {
    if loc(x.tracking_ref()) != node.loc { MISTRACKED.with(|m| m.borrow_mut().push(node.kind)); }
    node
}

pub fn script(b: &Script) -> Node { body(b, item) }
pub fn module(b: &Module) -> Node { body(b, mod_item) }
fn body<T>(b: &Body<T>, f: impl Fn(&T) -> Node) -> Node {
    let mut kids: Vec<Node> = b.dirs.iter().map(dir).collect();
    kids.extend(b.items.iter().map(f));
    n("Body", None, kids)
}
fn dir(d: &Dir) -> Node { tracked(d, dir_(d)) }
fn dir_(d: &Dir) -> Node { Node { kids: vec![semi(&d.semi)], ..l("Dir", &string(&d.string), loc(&d.location)) } }
fn mod_item(i: &ModItem) -> Node { tracked(i, mod_item_(i)) }
fn mod_item_(i: &ModItem) -> Node {
    match *i {
        ModItem::StmtListItem(ref i) => item(i),
        ModItem::Import(_) => n("Import", None, vec![]),
        ModItem::Export(_) => n("Export", None, vec![]),
    }
}
fn semi(s: &Semi) -> Node {
    match *s {
        Semi::Inserted => t("Semi", "inserted", None, vec![]),
        Semi::Explicit(p) => t("Semi", "explicit", p.map(|p| (canon::pos(p), canon::pos(p))), vec![]),
    }
}
fn item(i: &StmtListItem) -> Node { tracked(i, item_(i)) }
fn item_(i: &StmtListItem) -> Node {
    match *i { StmtListItem::Decl(ref d) => decl(d), StmtListItem::Stmt(ref s) => stmt(s) }
}
pub fn stmt_item(i: &StmtListItem) -> Node { item(i) }
fn items(v: &[StmtListItem]) -> Vec<Node> { v.iter().map(item).collect() }
fn decl(d: &Decl) -> Node { tracked(d, decl_(d)) }
fn decl_(d: &Decl) -> Node {
    match *d {
        Decl::Fun(ref f) => fun("FunDecl", f, id(&f.id)),
        Decl::Let(ref l, ref ds, ref s) => n("Let", loc(l), with(dtors(ds), semi(s))),
        Decl::Const(ref l, ref ds, ref s) => n("Const", loc(l), with(const_dtors(ds), semi(s))),
    }
}
fn with(mut v: Vec<Node>, x: Node) -> Vec<Node> { v.push(x); v }
fn dtors(v: &[Dtor]) -> Vec<Node> {
    v.iter().map(|d| tracked(d, match *d {
        Dtor::Simple(ref l, ref i, ref e) => n("Dtor", loc(l), vec![id(i), opt(e.as_ref().map(expr))]),
        Dtor::Compound(ref l, ref p, ref e) => n("Dtor", loc(l), vec![compound(p, &id), expr(e)]),
    })).collect()
}
fn const_dtors(v: &[ConstDtor]) -> Vec<Node> {
    v.iter().map(|d| tracked(d, n("Dtor", loc(&d.location), vec![patt(&d.patt, &id), expr(&d.value)]))).collect()
}
fn id(i: &Id) -> Node { tracked(i, id_(i)) }
fn id_(i: &Id) -> Node { t("Id", name(&i.name), loc(&i.location), vec![]) }

fn fun<I>(kind: &'static str, f: &Fun<I>, id: Node) -> Node {
    tracked(f, t(kind, if f.generator { "*" } else { "" }, loc(&f.location), vec![id, params(&f.params), script(&f.body)]))
}
fn params(p: &Params) -> Node { tracked(p, params_(p)) }
fn params_(p: &Params) -> Node {
    let mut kids: Vec<Node> = p.list.iter().map(|p| patt(p, &id)).collect();
    if let Some(ref r) = p.rest { kids.push(rest(r, &id)); }
    n("Params", loc(&p.location), kids)
}
fn rest<T: TrackingRef>(r: &RestPatt<T>, f: &dyn Fn(&T) -> Node) -> Node { tracked(r, n("Rest", loc(&r.location), vec![patt(&r.patt, f)])) }
fn patt<T: TrackingRef>(p: &Patt<T>, f: &dyn Fn(&T) -> Node) -> Node {
    tracked(p, match *p { Patt::Simple(ref x) => f(x), Patt::Compound(ref c) => compound(c, f) })
}
fn compound<T: TrackingRef>(c: &CompoundPatt<T>, f: &dyn Fn(&T) -> Node) -> Node {
    tracked(c, match *c {
        CompoundPatt::Arr(ref l, ref v, ref r) => {
            let mut kids: Vec<Node> = v.iter().map(|p| match *p { Some(ref p) => patt(p, f), None => n("Hole", None, vec![]) }).collect();
            if let Some(ref r) = *r { kids.push(rest(r, f)); }
            n("ArrPatt", loc(l), kids)
        }
        CompoundPatt::Obj(ref l, ref v) => n("ObjPatt", loc(l), v.iter().map(|p| match *p {
            PropPatt::Regular(ref l, ref k, ref v) => tracked(p, n("PropPatt", loc(l), vec![key(k), patt(v, f)])),
            PropPatt::Shorthand(ref i) => tracked(p, n("Shorthand", loc(&i.location), vec![id(i)])),
        }).collect()),
    })
}
pub fn assign_patt(p: &Patt<AssignTarget>) -> Node { patt(p, &target) }
pub fn target(a: &AssignTarget) -> Node { tracked(a, target_(a)) }
fn target_(a: &AssignTarget) -> Node {
    match *a {
        AssignTarget::Id(ref i) => id(i),
        AssignTarget::Dot(ref l, ref e, ref k) => n("Dot", loc(l), vec![expr(e), dot_key(k)]),
        AssignTarget::Brack(ref l, ref e, ref i) => n("Brack", loc(l), vec![expr(e), expr(i)]),
    }
}
fn dot_key(k: &DotKey) -> Node { tracked(k, dot_key_(k)) }
fn dot_key_(k: &DotKey) -> Node { t("DotKey", k.value.clone(), loc(&k.location), vec![]) }
fn key(k: &PropKey) -> Node { tracked(k, key_(k)) }
fn key_(k: &PropKey) -> Node {
    match *k {
        PropKey::Id(ref l, ref s) => t("KeyId", s.clone(), loc(l), vec![]),
        PropKey::String(ref at, ref s) => l("KeyStr", &string(s), loc(at)),
        PropKey::Number(ref at, ref x) => l("KeyNum", &number(x), loc(at)),
    }
}

pub fn stmt(s: &Stmt) -> Node { tracked(s, stmt_(s)) }
fn stmt_(s: &Stmt) -> Node {
    match *s {
        Stmt::Empty(ref l) => n("Empty", loc(l), vec![]),
        Stmt::Block(ref b) => block(b),
        Stmt::Var(ref l, ref ds, ref s) => n("Var", loc(l), with(dtors(ds), semi(s))),
        Stmt::Expr(ref l, ref e, ref s) => n("Expr", loc(l), vec![expr(e), semi(s)]),
        Stmt::If(ref l, ref e, ref c, ref a) => n("If", loc(l), vec![expr(e), stmt(c), opt(a.as_ref().map(|a| stmt(a)))]),
        Stmt::Label(ref l, ref i, ref s) => n("Label", loc(l), vec![id(i), stmt(s)]),
        Stmt::Break(ref l, ref i, ref s) => n("Break", loc(l), vec![opt(i.as_ref().map(id)), semi(s)]),
        Stmt::Cont(ref l, ref i, ref s) => n("Cont", loc(l), vec![opt(i.as_ref().map(id)), semi(s)]),
        Stmt::With(ref l, ref e, ref s) => n("With", loc(l), vec![expr(e), stmt(s)]),
        Stmt::Switch(ref l, ref e, ref cs) => {
            let mut kids = vec![expr(e)];
            kids.extend(cs.iter().map(|c| {
                let mut v = vec![opt(c.test.as_ref().map(expr))];
                v.extend(items(&c.body));
                tracked(c, n("Case", loc(&c.location), v))
            }));
            n("Switch", loc(l), kids)
        }
        Stmt::Return(ref l, ref e, ref s) => n("Return", loc(l), vec![opt(e.as_ref().map(expr)), semi(s)]),
        Stmt::Throw(ref l, ref e, ref s) => n("Throw", loc(l), vec![expr(e), semi(s)]),
        Stmt::Try(ref l, ref b, ref c, ref f) => n("Try", loc(l), vec![
            block(b),
            opt(c.as_ref().map(|c| tracked(&**c, n("Catch", loc(&c.location), vec![patt(&c.param, &id), block(&c.body)])))),
            opt(f.as_ref().map(block)),
        ]),
        Stmt::While(ref l, ref e, ref s) => n("While", loc(l), vec![expr(e), stmt(s)]),
        Stmt::DoWhile(ref l, ref s, ref e, ref x) => n("DoWhile", loc(l), vec![stmt(s), expr(e), semi(x)]),
        Stmt::For(ref l, ref h, ref a, ref b, ref s) => n("For", loc(l), vec![
            opt(h.as_ref().map(|h| tracked(&**h, match **h {
                ForHead::Var(ref l, ref ds) => n("HeadVar", loc(l), dtors(ds)),
                ForHead::Let(ref l, ref ds) => n("HeadLet", loc(l), dtors(ds)),
                ForHead::Const(ref l, ref ds) => n("HeadConst", loc(l), const_dtors(ds)),
                ForHead::Expr(ref l, ref e) => n("HeadExpr", loc(l), vec![expr(e)]),
            }))),
            opt(a.as_ref().map(expr)), opt(b.as_ref().map(expr)), stmt(s),
        ]),
        Stmt::ForIn(ref l, ref h, ref e, ref s) => n("ForIn", loc(l), vec![
            tracked(&**h, match **h {
                ForInHead::VarInit(ref l, ref i, ref e) => n("InVarInit", loc(l), vec![id(i), expr(e)]),
                ForInHead::Var(ref l, ref p) => n("InVar", loc(l), vec![patt(p, &id)]),
                ForInHead::Let(ref l, ref p) => n("InLet", loc(l), vec![patt(p, &id)]),
                ForInHead::Const(ref l, ref p) => n("InConst", loc(l), vec![patt(p, &id)]),
                ForInHead::Patt(ref p) => assign_patt(p),
            }),
            expr(e), stmt(s),
        ]),
        Stmt::ForOf(ref l, ref h, ref e, ref s) => n("ForOf", loc(l), vec![
            tracked(&**h, match **h {
                ForOfHead::Var(ref l, ref p) => n("OfVar", loc(l), vec![patt(p, &id)]),
                ForOfHead::Let(ref l, ref p) => n("OfLet", loc(l), vec![patt(p, &id)]),
                ForOfHead::Const(ref l, ref p) => n("OfConst", loc(l), vec![patt(p, &id)]),
                ForOfHead::Patt(ref p) => assign_patt(p),
            }),
            expr(e), stmt(s),
        ]),
        Stmt::Debugger(ref l, ref s) => n("Debugger", loc(l), vec![semi(s)]),
    }
}
fn block(b: &Block) -> Node { tracked(b, block_(b)) }
fn block_(b: &Block) -> Node { n("Block", loc(&b.location), items(&b.items)) }

fn list_item(e: &ExprListItem) -> Node { tracked(e, list_item_(e)) }
fn list_item_(e: &ExprListItem) -> Node {
    match *e { ExprListItem::Expr(ref e) => expr(e), ExprListItem::Spread(ref l, ref e) => n("Spread", loc(l), vec![expr(e)]) }
}
fn op<T: std::fmt::Display>(o: &Op<T>) -> Node { tracked(o, t("Op", o.to_string(), loc(&o.location), vec![])) }
fn unop(o: &Unop) -> &'static str {
    match o.tag {
        UnopTag::Minus => "-", UnopTag::Plus => "+", UnopTag::Not => "!", UnopTag::BitNot => "~",
        UnopTag::Typeof => "typeof", UnopTag::Void => "void", UnopTag::Delete => "delete",
    }
}

pub fn expr(e: &Expr) -> Node { tracked(e, expr_(e)) }
fn expr_(e: &Expr) -> Node {
    match *e {
        Expr::This(ref l) => n("This", loc(l), vec![]),
        Expr::Id(ref i) => id(i),
        Expr::Arr(ref l, ref v) => n("Arr", loc(l), v.iter().map(|x| match *x {
            None => n("Hole", None, vec![]),
            Some(ref x) => list_item(x),
        }).collect()),
        Expr::Obj(ref l, ref ps) => n("Obj", loc(l), ps.iter().map(prop).collect()),
        Expr::Fun(ref f) => fun("Fun", f, opt(f.id.as_ref().map(id))),
        Expr::Seq(ref l, ref v) => n("Seq", loc(l), v.iter().map(expr).collect()),
        Expr::Unop(ref l, ref o, ref e) => t("Unop", unop(o), loc(l), vec![t("Op", unop(o), loc(&o.location), vec![]), expr(e)]),
        Expr::Binop(ref l, ref o, ref a, ref b) => t("Binop", o.to_string(), loc(l), vec![op(o), expr(a), expr(b)]),
        Expr::Logop(ref l, ref o, ref a, ref b) => t("Logop", o.to_string(), loc(l), vec![op(o), expr(a), expr(b)]),
        Expr::PreInc(ref l, ref a) => n("PreInc", loc(l), vec![target(a)]),
        Expr::PostInc(ref l, ref a) => n("PostInc", loc(l), vec![target(a)]),
        Expr::PreDec(ref l, ref a) => n("PreDec", loc(l), vec![target(a)]),
        Expr::PostDec(ref l, ref a) => n("PostDec", loc(l), vec![target(a)]),
        Expr::Assign(ref l, ref p, ref e) => n("Assign", loc(l), vec![assign_patt(p), expr(e)]),
        Expr::BinAssign(ref l, ref o, ref a, ref e) => t("BinAssign", o.to_string(), loc(l), vec![op(o), target(a), expr(e)]),
        Expr::Cond(ref l, ref a, ref b, ref c) => n("Cond", loc(l), vec![expr(a), expr(b), expr(c)]),
        Expr::Call(ref l, ref e, ref v) => n("Call", loc(l), callee(e, v)),
        Expr::New(ref l, ref e, None) => n("New", loc(l), vec![expr(e)]),
        Expr::New(ref l, ref e, Some(ref v)) => n("New", loc(l), callee(e, v)),
        Expr::Dot(ref l, ref e, ref k) => n("Dot", loc(l), vec![expr(e), dot_key(k)]),
        Expr::Brack(ref l, ref e, ref i) => n("Brack", loc(l), vec![expr(e), expr(i)]),
        Expr::NewTarget(ref l) => n("NewTarget", loc(l), vec![]),
        Expr::True(ref l) => n("True", loc(l), vec![]),
        Expr::False(ref l) => n("False", loc(l), vec![]),
        Expr::Null(ref l) => n("Null", loc(l), vec![]),
        Expr::Number(ref at, ref x) => l("Number", &number(x), loc(at)),
        Expr::RegExp(ref at, ref x) => l("RegExp", &regexp(x), loc(at)),
        Expr::String(ref at, ref x) => l("String", &string(x), loc(at)),
    }
}
fn callee(e: &Expr, v: &[ExprListItem]) -> Vec<Node> {
    let mut kids = vec![expr(e)];
    kids.extend(v.iter().map(list_item));
    kids
}
fn prop(p: &Prop) -> Node { tracked(p, prop_(p)) }
fn prop_(p: &Prop) -> Node {
    match *p {
        Prop::Regular(ref l, ref k, ref v) => n("Prop", loc(l), vec![key(k), tracked(v, match *v {
            PropVal::Init(ref e) => expr(e),
            PropVal::Get(ref l, ref b) => n("Get", loc(l), vec![script(b)]),
            PropVal::Set(ref l, ref p, ref b) => n("Set", loc(l), vec![patt(p, &id), script(b)]),
        })]),
        Prop::Method(ref f) => fun("Method", f, key(&f.id)),
        Prop::Shorthand(ref i) => n("Shorthand", loc(&i.location), vec![id(i)]),
    }
}
