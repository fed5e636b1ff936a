//! Reading ESTree (estree): E01 the trees of programs, E02 malformed trees.
//!
//! `render` writes a reference tree as ESTree JSON; `read_script` is a reference
//! reader of such JSON, one function per node type of the ESTree specification.
use crate::conv;
use crate::modes::programs;
use crate::oracles::Check;
use crate::refparse::{self, Mode, Why, ASSIGN, LEVELS};
use crate::spaces::*;
use crate::tree::*;
use estree::{ESTreeScript, IntoScript};
use joker::track::Untrack;
use mc_core::{guarded, Acc, Fail, Run};
use reflex::{Kind, Text};
use serde_json::value::{Map, Value};

// ---------------------------------------------------------------- writing

fn node(ty: &str, fields: Vec<(&str, Value)>) -> Value {
    let mut m = Map::new();
    m.insert("type".to_string(), Value::String(ty.to_string()));
    for (k, v) in fields { m.insert(k.to_string(), v); }
    Value::Object(m)
}
fn s(x: &str) -> Value { Value::String(x.to_string()) }
fn b(x: bool) -> Value { Value::Bool(x) }
fn nodes(v: &[Node]) -> Value { Value::Array(v.iter().map(write).collect()) }
fn ident(x: &str) -> Value { node("Identifier", vec![("name", s(x))]) }
fn number(x: f64) -> Value {
    if x.fract() == 0.0 && x.abs() < 9e15 { if x < 0.0 { Value::I64(x as i64) } else { Value::U64(x as u64) } } else { Value::F64(x) }
}
fn string_statement(d: &Node) -> Value {
    let v = match d.val { Some(Val::Str(ref v)) => v, _ => unreachable!() };
    node("ExpressionStatement", vec![("expression", node("Literal", vec![("value", s(v))]))])
}
fn body(x: &Node) -> Value { Value::Array(x.kids.iter().map(|k| if k.kind == "Dir" { string_statement(k) } else { write(k) }).collect()) }
pub fn program(x: &Node) -> Value { node("Program", vec![("body", body(x)), ("sourceType", s("script"))]) }
fn function(ty: &str, x: &Node, id: Value) -> Value {
    node(ty, vec![("id", id), ("params", Value::Array(x.kids[1].kids.iter().map(|p| if p.kind == "Rest" { node("RestElement", vec![("argument", write(&p.kids[0]))]) } else { write(p) }).collect())), ("body", node("BlockStatement", vec![("body", body(&x.kids[2]))])), ("generator", b(x.text == "*")), ("expression", b(false))])
}
fn accessor(params: Vec<Value>, bd: &Node) -> Value {
    node("FunctionExpression", vec![("id", Value::Null), ("params", Value::Array(params)), ("body", node("BlockStatement", vec![("body", body(bd))])), ("generator", b(false)), ("expression", b(false))])
}
fn property(key: Value, kind: &str, method: bool, shorthand: bool, value: Value) -> Value {
    node("Property", vec![("key", key), ("computed", b(false)), ("value", value), ("kind", s(kind)), ("method", b(method)), ("shorthand", b(shorthand))])
}
fn declaration(kind: &str, ds: &[Node]) -> Value { node("VariableDeclaration", vec![("declarations", nodes(ds)), ("kind", s(kind))]) }
fn declarator(id: &Node, init: Value) -> Value { node("VariableDeclarator", vec![("id", write(id)), ("init", init)]) }
fn single(kind: &str, id: &Node, init: Value) -> Value { node("VariableDeclaration", vec![("declarations", Value::Array(vec![declarator(id, init)])), ("kind", s(kind))]) }

fn write(x: &Node) -> Value {
    let k = |i: usize| write(&x.kids[i]);
    let last = x.kids.len().wrapping_sub(1);
    match x.kind {
        "-" | "Hole" => Value::Null,
        "Id" | "DotKey" | "KeyId" => ident(&x.text),
        "This" => node("ThisExpression", vec![]),
        "Null" => node("Literal", vec![("value", Value::Null), ("raw", s("null"))]),
        "True" => node("Literal", vec![("value", b(true))]),
        "False" => node("Literal", vec![("value", b(false))]),
        "Number" | "KeyNum" | "String" | "KeyStr" | "RegExp" => match x.val {
            Some(Val::Num(v)) => node("Literal", vec![("value", number(v))]),
            Some(Val::Str(ref v)) => node("Literal", vec![("value", s(v))]),
            Some(Val::RegExp(ref p, ref f)) => {
                let mut re = Map::new();
                re.insert("pattern".to_string(), s(p));
                re.insert("flags".to_string(), s(f));
                // The value is null or, serialized, an empty object.
                node("Literal", vec![("value", if p.len() % 2 == 0 { Value::Null } else { Value::Object(Map::new()) }), ("regex", Value::Object(re))])
            }
            None => unreachable!(),
        },
        "Arr" | "ArrPatt" => node("ArrayExpression", vec![("elements", nodes(&x.kids))]),
        "Obj" | "ObjPatt" => node("ObjectExpression", vec![("properties", nodes(&x.kids))]),
        "Spread" => node("SpreadElement", vec![("argument", k(0))]),
        "Rest" => node("SpreadElement", vec![("argument", k(0))]),
        "Shorthand" => property(k(0), "init", false, true, k(0)),
        "PropPatt" => property(k(0), "init", false, false, k(1)),
        "Prop" => match x.kids[1].kind {
            "Get" => property(k(0), "get", false, false, accessor(vec![], &x.kids[1].kids[0])),
            "Set" => property(k(0), "set", false, false, accessor(vec![write(&x.kids[1].kids[0])], &x.kids[1].kids[1])),
            _ => property(k(0), "init", false, false, k(1)),
        },
        "Method" => property(k(0), "init", true, false, function("FunctionExpression", x, Value::Null)),
        "Seq" => node("SequenceExpression", vec![("expressions", nodes(&x.kids))]),
        "Unop" => node("UnaryExpression", vec![("operator", s(&x.text)), ("argument", k(1)), ("prefix", b(true))]),
        "Binop" => node("BinaryExpression", vec![("operator", s(&x.text)), ("left", k(1)), ("right", k(2))]),
        "Logop" => node("LogicalExpression", vec![("operator", s(&x.text)), ("left", k(1)), ("right", k(2))]),
        "BinAssign" => node("AssignmentExpression", vec![("operator", s(&x.text)), ("left", k(1)), ("right", k(2))]),
        "Assign" => node("AssignmentExpression", vec![("operator", s("=")), ("left", k(0)), ("right", k(1))]),
        "PreInc" | "PreDec" | "PostInc" | "PostDec" => node("UpdateExpression", vec![("operator", s(if x.kind.ends_with("Inc") { "++" } else { "--" })), ("argument", k(0)), ("prefix", b(x.kind.starts_with("Pre")))]),
        "Cond" => node("ConditionalExpression", vec![("test", k(0)), ("consequent", k(1)), ("alternate", k(2))]),
        "Call" => node("CallExpression", vec![("callee", k(0)), ("arguments", nodes(&x.kids[1..]))]),
        "New" => node("NewExpression", vec![("callee", k(0)), ("arguments", nodes(&x.kids[1..]))]),
        "Dot" => node("MemberExpression", vec![("object", k(0)), ("property", k(1)), ("computed", b(false))]),
        "Brack" => node("MemberExpression", vec![("object", k(0)), ("property", k(1)), ("computed", b(true))]),
        "NewTarget" => node("MetaProperty", vec![("meta", ident("new")), ("property", ident("target"))]),
        "Dtor" => declarator(&x.kids[0], k(1)),
        "Empty" => node("EmptyStatement", vec![]),
        "Block" => node("BlockStatement", vec![("body", nodes(&x.kids))]),
        "Var" => declaration("var", &x.kids[..last]),
        "Let" => declaration("let", &x.kids[..last]),
        "Const" => declaration("const", &x.kids[..last]),
        "HeadVar" => declaration("var", &x.kids),
        "HeadLet" => declaration("let", &x.kids),
        "HeadConst" => declaration("const", &x.kids),
        "HeadExpr" => k(0),
        "InVarInit" => single("var", &x.kids[0], k(1)),
        "InVar" | "OfVar" => single("var", &x.kids[0], Value::Null),
        "InLet" | "OfLet" => single("let", &x.kids[0], Value::Null),
        "InConst" | "OfConst" => single("const", &x.kids[0], Value::Null),
        "Expr" => node("ExpressionStatement", vec![("expression", k(0))]),
        "If" => node("IfStatement", vec![("test", k(0)), ("consequent", k(1)), ("alternate", k(2))]),
        "Label" => node("LabeledStatement", vec![("label", k(0)), ("body", k(1))]),
        "Break" => node("BreakStatement", vec![("label", k(0))]),
        "Cont" => node("ContinueStatement", vec![("label", k(0))]),
        "With" => node("WithStatement", vec![("object", k(0)), ("body", k(1))]),
        "Switch" => node("SwitchStatement", vec![("discriminant", k(0)), ("cases", nodes(&x.kids[1..]))]),
        "Case" => node("SwitchCase", vec![("test", k(0)), ("consequent", nodes(&x.kids[1..]))]),
        "Return" => node("ReturnStatement", vec![("argument", k(0))]),
        "Throw" => node("ThrowStatement", vec![("argument", k(0))]),
        "Try" => node("TryStatement", vec![("block", k(0)), ("handler", k(1)), ("finalizer", k(2))]),
        "Catch" => node("CatchClause", vec![("param", k(0)), ("body", k(1))]),
        "While" => node("WhileStatement", vec![("test", k(0)), ("body", k(1))]),
        "DoWhile" => node("DoWhileStatement", vec![("body", k(0)), ("test", k(1))]),
        "For" => node("ForStatement", vec![("init", k(0)), ("test", k(1)), ("update", k(2)), ("body", k(3))]),
        "ForIn" => node("ForInStatement", vec![("left", k(0)), ("right", k(1)), ("body", k(2)), ("each", b(false))]),
        "ForOf" => node("ForOfStatement", vec![("left", k(0)), ("right", k(1)), ("body", k(2))]),
        "Debugger" => node("DebuggerStatement", vec![]),
        "FunDecl" => function("FunctionDeclaration", x, k(0)),
        "Fun" => function("FunctionExpression", x, k(0)),
        k => panic!("no ESTree form for {}", k),
    }
}

// ---------------------------------------------------------------- reading

/// Open: the format leaves out what the reader need not notice.
#[derive(Debug)]
pub enum No { Reject(String), Open(&'static str) }
type R<T> = Result<T, No>;
fn reject<T>(m: impl Into<String>) -> R<T> { Err(No::Reject(m.into())) }
fn open<T>(m: &'static str) -> R<T> { Err(No::Open(m)) }

type Obj = Map<String, Value>;
fn ty(v: &Value) -> &'static str { match *v { Value::Null => "null", Value::Bool(_) => "boolean", Value::String(_) => "string", Value::Array(_) => "array", Value::Object(_) => "object", _ => "number" } }
/// Rejections are written as the message they are reported with, `*` for any text.
fn wrong<T>(expected: &str, v: &Value) -> R<T> { reject(format!("expected {}, got {}", expected, ty(v))) }
/// A node of a type that does not fit there.
fn misplaced<T>(expected: &str, o: &Obj) -> R<T> {
    let k = kind(o)?;
    if KNOWN.contains(&k) { reject(format!("expected {} node, got {}", expected, k)) } else { reject(format!("expected node type tag, got {}", k)) }
}
fn illegal<T>(expected: &str, s: &str) -> R<T> { reject(format!("expected {}, got {:?}", expected, s)) }
fn obj(v: &Value) -> R<&Obj> { match *v { Value::Object(ref o) => Ok(o), _ => wrong("object", v) } }
fn obj_or_null(v: &Value) -> R<&Obj> { match *v { Value::Object(ref o) => Ok(o), _ => wrong("object or null", v) } }
fn get<'a>(o: &'a Obj, f: &str) -> R<&'a Value> { o.get(f).map_or_else(|| reject(format!("missing object field '{}'", f)), Ok) }
fn list<'a>(o: &'a Obj, f: &str) -> R<&'a Vec<Value>> { match *get(o, f)? { Value::Array(ref a) => Ok(a), ref v => wrong("array", v) } }
fn text<'a>(o: &'a Obj, f: &str) -> R<&'a str> { match *get(o, f)? { Value::String(ref a) => Ok(a), ref v => wrong("string", v) } }
fn flag(o: &Obj, f: &str) -> R<bool> { match *get(o, f)? { Value::Bool(x) => Ok(x), ref v => wrong("boolean", v) } }
fn maybe<T>(o: &Obj, f: &str, g: impl Fn(&Value) -> R<T>) -> R<Option<T>> { match *get(o, f)? { Value::Null => Ok(None), ref v => { obj_or_null(v)?; g(v).map(Some) } } }
fn each<T>(o: &Obj, f: &str, g: impl Fn(&Value) -> R<T>) -> R<Vec<T>> {
    // Rejection of any element decides before what is open in another.
    let mut out = vec![];
    let mut op = None;
    for v in list(o, f)? { match g(v) { Ok(x) => out.push(x), Err(No::Open(m)) => op = Some(m), Err(e) => return Err(e) } }
    match op { Some(m) => open(m), None => Ok(out) }
}
fn kind(o: &Obj) -> R<&str> { text(o, "type") }
/// The types of nodes whose type follows from where they stand.
fn implied(o: &Obj, ty: &str) -> bool { matches!(o.get("type"), Some(Value::String(ref t)) if t == ty) }

/// Combines parts so that a rejection anywhere decides before anything open.
macro_rules! all {
    ($($e:expr),*) => {{
        let r = ($($e,)*);
        #[allow(non_snake_case)]
        all!(@open r; $($e),*)
    }};
    (@open $r:ident; $a:expr) => { match $r { (Ok(a),) => (a,), (Err(e),) => return Err(e) } };
    (@open $r:ident; $a:expr, $b:expr) => { match $r {
        (Ok(a), Ok(b)) => (a, b),
        (Err(No::Reject(e)), _) | (_, Err(No::Reject(e))) => return reject(e),
        (Err(e), _) | (_, Err(e)) => return Err(e),
    } };
    (@open $r:ident; $a:expr, $b:expr, $c:expr) => { match $r {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        (Err(No::Reject(e)), _, _) | (_, Err(No::Reject(e)), _) | (_, _, Err(No::Reject(e))) => return reject(e),
        (Err(e), _, _) | (_, Err(e), _) | (_, _, Err(e)) => return Err(e),
    } };
    (@open $r:ident; $a:expr, $b:expr, $c:expr, $d:expr) => { match $r {
        (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
        (Err(No::Reject(e)), _, _, _) | (_, Err(No::Reject(e)), _, _) | (_, _, Err(No::Reject(e)), _) | (_, _, _, Err(No::Reject(e))) => return reject(e),
        (Err(e), _, _, _) | (_, Err(e), _, _) | (_, _, Err(e), _) | (_, _, _, Err(e)) => return Err(e),
    } };
}

pub fn read_script(v: &Value) -> R<Node> {
    let o = obj(v)?;
    let r = read_body(o);
    match r { Ok(_) if !implied(o, "Program") => open("type of a program"), r => r }
}
fn read_body(o: &Obj) -> R<Node> {
    let mut kids = each(o, "body", |v| statement(v, true))?;
    for k in &mut kids {
        if k.kind != "Expr" || k.kids[0].kind != "String" { break; }
        *k = Node { kind: "Dir", text: String::new(), loc: None, val: k.kids[0].val.clone(), kids: vec![semi()], paren: false };
    }
    Ok(n("Body", None, kids))
}
fn semi() -> Node { n("Semi", None, vec![]) }
fn read_id(v: &Value) -> R<Node> {
    let o = obj(v)?;
    if kind(o)? != "Identifier" { return misplaced("identifier", o); }
    Ok(t("Id", text(o, "name")?, None, vec![]))
}
fn read_function(o: &Obj, k: &'static str, id: Node) -> R<Node> {
    let gen = match *get(o, "generator")? { Value::Null => false, Value::Bool(x) => x, ref v => return wrong("boolean or null", v) };
    let ps = list(o, "params")?;
    let mut params = vec![];
    for (i, p) in ps.iter().enumerate() {
        let po = obj(p)?;
        if i + 1 == ps.len() && kind(po)? == "RestElement" { params.push(n("Rest", None, vec![read_id(get(po, "argument")?)?])); } else { params.push(read_id(p)?); }
    }
    let b = obj(get(o, "body")?)?;
    let bd = read_body(b)?;
    if !implied(b, "BlockStatement") { return open("type of a function body"); }
    Ok(t(k, if gen { "*" } else { "" }, None, vec![id, n("Params", None, params), bd]))
}
fn literal(o: &Obj) -> R<Node> {
    let lit = |k: &'static str, v: Val| Node { val: Some(v), ..n(k, None, vec![]) };
    let v = get(o, "value")?;
    let regex = o.contains_key("regex");
    if regex && !matches!(*v, Value::Null | Value::Object(_) | Value::Array(_)) { return open("regex beside another value"); }
    match *v {
        Value::Null if !regex => Ok(n("Null", None, vec![])),
        Value::Bool(x) => Ok(n(if x { "True" } else { "False" }, None, vec![])),
        Value::String(ref x) => Ok(lit("String", Val::Str(x.clone()))),
        Value::I64(x) => Ok(lit("Number", Val::Num(x as f64))),
        Value::U64(x) => Ok(lit("Number", Val::Num(x as f64))),
        Value::F64(x) => Ok(lit("Number", Val::Num(x))),
        Value::Null | Value::Object(_) => {
            let r = obj(get(o, "regex")?)?;
            let (p, f) = (text(r, "pattern")?, text(r, "flags")?);
            Ok(lit("RegExp", Val::RegExp(p.to_string(), sorted(f))))
        }
        ref v => wrong("null, number, boolean, string, or object", v),
    }
}
fn read_key(v: &Value) -> R<Node> {
    let o = obj(v)?;
    if kind(o)? == "Identifier" { return Ok(t("KeyId", text(o, "name")?, None, vec![])); }
    if kind(o)? != "Literal" { let r = literal(o); return match r { Ok(ref x) if x.kind == "String" || x.kind == "Number" => open("type of a key"), Err(No::Open(m)) => open(m), _ => reject("?") }; }
    let l = literal(o)?;
    match l.kind { "String" => Ok(Node { kind: "KeyStr", ..l }), "Number" => Ok(Node { kind: "KeyNum", ..l }), _ => reject("expected identifier, number literal, or string literal, got object") }
}
fn read_property(v: &Value) -> R<Node> {
    let o = obj(v)?;
    let (key, val) = (obj(get(o, "key")?)?, obj(get(o, "value")?)?);
    let kv = Value::Object(key.clone());
    let vv = Value::Object(val.clone());
    let mut unsure = if implied(o, "Property") { None } else { Some("type of a property") };
    match o.get("computed") { Some(&Value::Bool(false)) => {} Some(&Value::Bool(true)) => return reject("expected *, got \"computed key\""), _ => unsure = Some("computed") }
    let x = match text(o, "kind")? {
        "init" => {
            if flag(o, "method")? {
                let f = all!(read_key(&kv), read_function(val, "Method", none()));
                if !implied(val, "FunctionExpression") { unsure = Some("type of a method"); }
                let mut f2 = f.1;
                f2.kids[0] = f.0;
                f2
            } else if flag(o, "shorthand")? {
                let i = read_id(&kv)?;
                if read_id(&vv).ok() != Some(i.clone()) { unsure = Some("value of a shorthand"); }
                n("Shorthand", None, vec![i])
            } else {
                let (k, v) = all!(read_key(&kv), expression(&vv));
                n("Prop", None, vec![k, v])
            }
        }
        "get" => {
            let b = obj(get(val, "body")?)?;
            let (k, bd) = all!(read_key(&kv), read_body(b));
            match read_function(val, "Fun", none()) { Ok(ref f) if f.text.is_empty() && f.kids[1].kids.is_empty() => {} _ => unsure = Some("function of a getter") }
            if !implied(val, "FunctionExpression") { unsure = Some("type of a getter"); }
            n("Prop", None, vec![k, n("Get", None, vec![bd])])
        }
        "set" => {
            let (k, f) = all!(read_key(&kv), read_function(val, "Fun", none()));
            let (plain, rest): (Vec<&Node>, Vec<&Node>) = f.kids[1].kids.iter().partition(|p| p.kind != "Rest");
            if plain.len() != 1 { return reject(format!("expected array of length 1, got array of length {}", plain.len())); }
            if !rest.is_empty() || f.text == "*" { unsure = Some("function of a setter"); }
            if !implied(val, "FunctionExpression") { unsure = Some("type of a setter"); }
            n("Prop", None, vec![k, n("Set", None, vec![plain[0].clone(), f.kids[2].clone()])])
        }
        _ => return reject("expected *, got *"),
    };
    match unsure { Some(m) => open(m), None => Ok(x) }
}
fn element(v: &Value) -> R<Node> {
    let o = obj(v)?;
    if kind(o)? == "SpreadElement" { return Ok(n("Spread", None, vec![expression(get(o, "argument")?)?])); }
    expression(v)
}
fn lhs(r: Result<Node, Why>) -> R<Node> { r.or_else(|_| reject("invalid left-hand side of assignment")) }

fn expression(v: &Value) -> R<Node> {
    let o = obj(v)?;
    let sub = |f: &str| expression(get(o, f)?);
    let oper = |known: &dyn Fn(&str) -> bool| -> R<&'static str> {
        let s = text(o, "operator")?;
        if !known(s) { return illegal("*", s); }
        Ok(LEVELS.iter().flat_map(|l| l.iter()).chain(ASSIGN).chain(["=", "!", "~", "typeof", "void", "delete", "++", "--"].iter()).cloned().find(|x| *x == s).unwrap())
    };
    let level = |s: &str| LEVELS.iter().position(|l| l.contains(&s));
    let op = |s: &'static str| t("Op", s, None, vec![]);
    match kind(o)? {
        "Identifier" => read_id(v),
        "Literal" => literal(o),
        "ThisExpression" => Ok(n("This", None, vec![])),
        "BinaryExpression" | "LogicalExpression" => {
            let logical = kind(o)? == "LogicalExpression";
            let (s, a, b) = all!(oper(&|s| level(s).map_or(false, |l| (l < 2) == logical)), sub("left"), sub("right"));
            Ok(t(if logical { "Logop" } else { "Binop" }, s, None, vec![op(s), a, b]))
        }
        "AssignmentExpression" => {
            let (s, a, b) = all!(oper(&|s| s == "=" || ASSIGN.contains(&s)), sub("left"), sub("right"));
            if s == "=" { return Ok(n("Assign", None, vec![lhs(refparse::pattern_of(a))?, b])); }
            Ok(t("BinAssign", s, None, vec![op(s), lhs(refparse::target_of(a))?, b]))
        }
        "UnaryExpression" => {
            let (s, a) = all!(oper(&|s| ["-", "+", "!", "~", "typeof", "void", "delete"].contains(&s)), sub("argument"));
            if o.get("prefix") != Some(&Value::Bool(true)) { return open("prefix of a unary expression"); }
            Ok(t("Unop", s, None, vec![op(s), a]))
        }
        "UpdateExpression" => {
            let (s, a, p) = all!(oper(&|s| s == "++" || s == "--"), sub("argument"), flag(o, "prefix"));
            let a = lhs(refparse::target_of(a))?;
            Ok(n(match (s, p) { ("++", true) => "PreInc", ("++", false) => "PostInc", (_, true) => "PreDec", _ => "PostDec" }, None, vec![a]))
        }
        "MemberExpression" => {
            if flag(o, "computed")? { let (a, b) = all!(sub("object"), sub("property")); return Ok(n("Brack", None, vec![a, b])); }
            let (a, b) = all!(sub("object"), read_id(get(o, "property")?));
            Ok(n("Dot", None, vec![a, Node { kind: "DotKey", ..b }]))
        }
        "CallExpression" | "NewExpression" => {
            let (f, args) = all!(sub("callee"), each(o, "arguments", element));
            let mut kids = vec![f];
            kids.extend(args);
            Ok(n(if kind(o)? == "CallExpression" { "Call" } else { "New" }, None, kids))
        }
        "ArrayExpression" => Ok(n("Arr", None, each(o, "elements", |v| if *v == Value::Null { Ok(n("Hole", None, vec![])) } else { obj_or_null(v)?; element(v) })?)),
        "ObjectExpression" => Ok(n("Obj", None, each(o, "properties", read_property)?)),
        "FunctionExpression" => { let id = maybe(o, "id", read_id)?; read_function(o, "Fun", opt(id)) }
        "SequenceExpression" => {
            let kids = each(o, "expressions", expression)?;
            if kids.len() < 2 { return open("short sequence"); }
            Ok(n("Seq", None, kids))
        }
        "ConditionalExpression" => { let (a, b, c) = all!(sub("test"), sub("consequent"), sub("alternate")); Ok(n("Cond", None, vec![a, b, c])) }
        "MetaProperty" => {
            let (a, b) = all!(read_id(get(o, "meta")?), read_id(get(o, "property")?));
            if a.text == "new" && b.text == "target" { Ok(n("NewTarget", None, vec![])) } else { illegal("*", &format!("{}.{}", a.text, b.text)) }
        }
        _ => misplaced("expression", o),
    }
}

fn declarators(o: &Obj, constant: bool) -> R<Vec<Node>> {
    let v = each(o, "declarations", |v| {
        let d = obj(v)?;
        let (id, init) = all!(read_id(get(d, "id")?), maybe(d, "init", expression));
        if constant && init.is_none() { return reject("uninitialized constant pattern in declarator"); }
        if !implied(d, "VariableDeclarator") { return open("type of a declarator"); }
        Ok(n("Dtor", None, if constant { vec![id, init.unwrap()] } else { vec![id, opt(init)] }))
    })?;
    if v.is_empty() { return open("no declarator"); }
    Ok(v)
}
/// The head of a for loop over keys (`In`) or values (`Of`).
fn loop_head(v: &Value, over: bool) -> R<Node> {
    let o = obj(v)?;
    if kind(o)? != "VariableDeclaration" { return lhs(refparse::pattern_of(expression(v)?)); }
    let k = text(o, "kind")?;
    let ds = list(o, "declarations")?;
    if ds.len() != 1 { return reject(format!("expected array of length 1, got array of length {}", ds.len())); }
    let d = obj(&ds[0])?;
    let id = read_id(get(d, "id")?)?;
    if !["var", "let", "const"].contains(&k) { return if d.get("init") == Some(&Value::Null) { illegal("*", k) } else { reject("?") }; }
    // Only loops over keys may have an initializer.
    if over && !d.contains_key("init") { return open("initializer left out"); }
    let init = maybe(d, "init", expression)?;
    let unsure = !implied(d, "VariableDeclarator");
    let x = match (over, k, init) {
        (false, "var", Some(e)) => n("InVarInit", None, vec![id, e]),
        (_, _, Some(_)) => return reject("unexpected initializer in for-in or for-of loop"),
        (false, "var", _) => n("InVar", None, vec![id]),
        (false, "let", _) => n("InLet", None, vec![id]),
        (false, _, _) => n("InConst", None, vec![id]),
        (true, "var", _) => n("OfVar", None, vec![id]),
        (true, "let", _) => n("OfLet", None, vec![id]),
        (true, _, _) => n("OfConst", None, vec![id]),
    };
    if unsure { open("type of a declarator") } else { Ok(x) }
}
fn block(v: &Value) -> R<Node> {
    let o = obj(v)?;
    if kind(o)? != "BlockStatement" { return misplaced("block statement", o); }
    Ok(n("Block", None, each(o, "body", |v| statement(v, true))?))
}

fn statement(v: &Value, decl: bool) -> R<Node> {
    let o = obj(v)?;
    let sub = |f: &str| expression(get(o, f)?);
    let some = |f: &str| maybe(o, f, expression);
    let inner = |f: &str| statement(get(o, f)?, false);
    let k = |kind: &'static str, kids: Vec<Node>| Ok(n(kind, None, kids));
    match kind(o)? {
        "FunctionDeclaration" => {
            if !decl { return misplaced("statement", o); }
            let (id, f) = all!(read_id(get(o, "id")?), read_function(o, "FunDecl", none()));
            let mut f = f;
            f.kids[0] = id;
            Ok(f)
        }
        "VariableDeclaration" => {
            let kd = text(o, "kind")?;
            let (name, lexical) = match kd { "var" => ("Var", false), "let" => ("Let", true), "const" => ("Const", true), _ => return illegal("*", kd) };
            if lexical && !decl { return illegal("*", kd); }
            let mut kids = declarators(o, kd == "const")?;
            kids.push(semi());
            k(name, kids)
        }
        "EmptyStatement" => k("Empty", vec![]),
        "BlockStatement" => block(v),
        "ExpressionStatement" => k("Expr", vec![sub("expression")?, semi()]),
        "IfStatement" => { let (a, b, c) = all!(sub("test"), inner("consequent"), maybe(o, "alternate", |v| statement(v, false))); k("If", vec![a, b, opt(c)]) }
        "DoWhileStatement" => { let (a, b) = all!(inner("body"), sub("test")); k("DoWhile", vec![a, b, semi()]) }
        "WhileStatement" => { let (a, b) = all!(sub("test"), inner("body")); k("While", vec![a, b]) }
        "WithStatement" => { let (a, b) = all!(sub("object"), inner("body")); k("With", vec![a, b]) }
        "LabeledStatement" => { let (a, b) = all!(read_id(get(o, "label")?), inner("body")); k("Label", vec![a, b]) }
        "BreakStatement" => k("Break", vec![opt(maybe(o, "label", read_id)?), semi()]),
        "ContinueStatement" => k("Cont", vec![opt(maybe(o, "label", read_id)?), semi()]),
        "ReturnStatement" => k("Return", vec![opt(some("argument")?), semi()]),
        "ThrowStatement" => k("Throw", vec![sub("argument")?, semi()]),
        "DebuggerStatement" => k("Debugger", vec![semi()]),
        "ForStatement" => {
            let (a, b, c, d) = all!(maybe(o, "init", |v| {
                let h = obj(v)?;
                if kind(h)? != "VariableDeclaration" { return Ok(n("HeadExpr", None, vec![expression(v)?])); }
                match text(h, "kind")? {
                    "var" => Ok(n("HeadVar", None, declarators(h, false)?)),
                    "let" => Ok(n("HeadLet", None, declarators(h, false)?)),
                    "const" => Ok(n("HeadConst", None, declarators(h, true)?)),
                    k => illegal("*", k),
                }
            }), some("test"), some("update"), inner("body"));
            k("For", vec![opt(a), opt(b), opt(c), d])
        }
        "ForInStatement" => { let (a, b, c) = all!(loop_head(get(o, "left")?, false), sub("right"), inner("body")); k("ForIn", vec![a, b, c]) }
        "ForOfStatement" => { let (a, b, c) = all!(loop_head(get(o, "left")?, true), sub("right"), inner("body")); k("ForOf", vec![a, b, c]) }
        "SwitchStatement" => {
            let (d, cs) = all!(sub("discriminant"), each(o, "cases", |v| {
                let c = obj(v)?;
                let (t, bd) = all!(maybe(c, "test", expression), each(c, "consequent", |v| statement(v, true)));
                if !implied(c, "SwitchCase") { return open("type of a case"); }
                let mut kids = vec![opt(t)];
                kids.extend(bd);
                Ok(n("Case", None, kids))
            }));
            if cs.iter().filter(|c| c.kids[0].kind == "-").count() > 1 { return open("two defaults"); }
            let mut kids = vec![d];
            kids.extend(cs);
            k("Switch", kids)
        }
        "TryStatement" => {
            let (b, h, f) = all!(block(get(o, "block")?), maybe(o, "handler", |v| {
                let c = obj(v)?;
                let (p, b) = all!(read_id(get(c, "param")?), block(get(c, "body")?));
                if !implied(c, "CatchClause") { return open("type of a handler"); }
                Ok(n("Catch", None, vec![p, b]))
            }), maybe(o, "finalizer", block));
            if h.is_none() && f.is_none() { return open("try without handler"); }
            k("Try", vec![b, opt(h), opt(f)])
        }
        _ => misplaced("*", o),
    }
}

// ---------------------------------------------------------------- oracles

/// What ESTree cannot say: a parenthesized string in directive position.
fn ambiguous(x: &Node) -> bool {
    x.any(&|b| b.kind == "Body" && b.kids.iter().find(|k| k.kind != "Dir").map_or(false, |k| k.kind == "Expr" && k.kids[0].kind == "String"))
}
fn bare(k: &Node) -> Node {
    let mut x = k.clone();
    if let Some(Val::RegExp(ref p, ref f)) = x.val { x.val = Some(Val::RegExp(p.clone(), sorted(f))); }
    x.loc = None;
    x.kids = x.kids.iter().map(bare).collect();
    x
}

fn implementation(v: Value) -> Result<Result<(easter::stmt::Script, Node), String>, Fail> {
    let o = match v { Value::Object(o) => o, _ => return Ok(Err("not an object".into())) };
    guarded(|| o.into_script().map(|b| { let n = conv::script(&b); (b, n) }).map_err(|e| e.to_string())).map_err(|p| Fail::new("panic", format!("panicked: {}", p)))
}

/// Does the text match, `*` standing for any text?
fn says(pattern: &str, text: &str) -> bool {
    match pattern.split_once('*') {
        None => pattern == text,
        Some((a, rest)) => text.starts_with(a) && (0..=text.len()).filter(|i| *i >= a.len() && text.is_char_boundary(*i)).any(|i| says(rest, &text[i..])),
    }
}

/// `single`: the value differs from a tree in one place, so the message is determined.
fn judge(v: &Value, single: bool, acc: &mut Acc) -> Result<Option<(easter::stmt::Script, Node)>, Fail> {
    let want = read_script(v);
    let got = implementation(v.clone())?;
    // Through serde, the same verdict.
    let serde = guarded(|| serde_json::value::from_value::<ESTreeScript>(v.clone()).map(|_| ()).map_err(|e| e.to_string())).map_err(|p| Fail::new("panic", format!("deserializing panicked: {}", p)))?;
    match (&serde, &got) {
        (Ok(()), Ok(_)) => {}
        (Err(m), Err(n)) if m.contains(n.as_str()) || !matches!(v, Value::Object(_)) => {}
        _ => return Err(Fail::new("serde", format!("deserialized: {:?}; read: {:?}", serde, got.as_ref().map(|x| x.1.show())))),
    }
    match (want, got) {
        (Ok(w), Ok((b, g))) => {
            acc.states += w.size();
            w.each(&mut |x| acc.outcome(x.kind));
            if let Some((k, d)) = w.value_diff(&g) { return Err(Fail::new(&format!("tree:{}", k), d)); }
            if g.any(&|x| x.loc.is_some()) { return Err(Fail::new("location", format!("a location out of nothing: {:?}", g))); }
            Ok(Some((b, g)))
        }
        (Ok(w), Err(e)) => Err(Fail::new("rejects", format!("{}; expected {}", e, w.show()))),
        (Err(No::Open(m)), r) => { acc.states += 1; acc.outcome((m, r.is_ok())); Ok(None) }
        (Err(No::Reject(m)), Ok((_, g))) => Err(Fail::new(&format!("accepts:{}", m), format!("read as {}; expected a rejection ({})", g.show(), m))),
        (Err(No::Reject(m)), Err(e)) => {
            acc.states += 1;
            acc.outcome(&m);
            if single && m != "?" && !says(&m, &e) { return Err(Fail::new(&format!("message:{}", m.chars().take(24).collect::<String>()), format!("reported as {:?}; expected {:?}", e, m))); }
            if e.is_empty() { return Err(Fail::new("message", "an error without message".to_string())); }
            Ok(None)
        }
    }
}

/// Adds what producers put on every node.
fn annotate(v: &mut Value) {
    match *v {
        Value::Object(ref mut o) => {
            for x in o.values_mut() { annotate(x); }
            if o.contains_key("type") {
                for (k, x) in [("start", Value::U64(3)), ("end", Value::U64(1)), ("range", Value::Array(vec![Value::U64(0), Value::Null])), ("loc", Value::Null), ("raw", s("'")), ("extra", Value::Object(Map::new())), ("leadingComments", Value::Array(vec![node("Line", vec![("value", s("c"))])])), ("typeAnnotation", Value::Null), ("defaults", Value::Array(vec![])), ("", b(true))] {
                    o.insert(k.to_string(), x);
                }
            }
        }
        Value::Array(ref mut a) => for x in a { annotate(x); },
        _ => {}
    }
}

/// Case: a program.
pub fn reads(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    let x = match refparse::parse(&Text::new(src), Mode::Script).0 { Ok(x) if !ambiguous(&x) => x, _ => { acc.outcome("no tree"); return Ok(()); } };
    acc.transitions += 2;
    let v = program(&x);
    acc.sample(|| serde_json::to_string(&v).unwrap_or_default());
    let x = bare(&x);
    match read_script(&v) {
        Ok(ref r) => if let Some((_, d)) = x.value_diff(r) { panic!("the reference reader and writer disagree: {}", d) },
        Err(e) => panic!("the reference reader refuses {}: {:?}", src, e),
    }
    let (b, _) = judge(&v, true, acc)?.unwrap();
    // Fields beyond the specified ones make no difference.
    let mut w = v.clone();
    annotate(&mut w);
    acc.transitions += 1;
    match implementation(w)? {
        Ok((ref c, _)) if *c == b => {}
        r => return Err(Fail::new("annotated", format!("with further fields, read as {:?}", r.map(|x| x.1.show())))),
    }
    // The parser's tree, without locations, is the same.
    match guarded(|| esprit::script(src)) {
        Ok(Ok(mut p)) => {
            p.untrack();
            if b != p || p != b { return Err(Fail::new("equal", format!("the tree read differs from the tree parsed, {:?} from {:?}", b, p))); }
        }
        _ => {}
    }
    Ok(())
}

pub fn trees(run: &Run) {
    let all = programs();
    run.par(all.len(), |i, acc| run.case(all[i].as_bytes(), acc));
    product(run, &[STMT_CTX.len(), STMTS.len()], |ix, acc| {
        let x = fill(STMT_CTX[ix[0]], STMTS[ix[1]]);
        for c in STMT_CTX { run.case(fill(c, &x).as_bytes(), acc); }
    });
    product(run, &[EXPR_CTX.len(), EXPRS.len()], |ix, acc| {
        let e = fill(EXPR_CTX[ix[0]], EXPRS[ix[1]]);
        for c in EXPR_CTX { run.case(format!("x = {} ;", fill(c, &e)).as_bytes(), acc); }
        if !run.quick() { for c in EXPR_STMT_CTX { run.case(fill(c, &e).as_bytes(), acc); } }
    });
    sizes(run, &|x, acc| run.case(x.as_bytes(), acc));
    // Literals of every form and names of every kind.
    let lits: &[&str] = &["0", "1", "0.5", "1e3", "1e21", "9007199254740993", "18446744073709551615", "18446744073709551616", "1e400", "5e-324", "0x10", "0b11", "017", "08", "1.", ".5", "4294967296", "2147483648", "1e308",
        "''", "'a'", "\"é😀\"", "'\\n\\0\\x41'", "'use strict'", "'\\\n'", "/a/", "/ab/", "/[/]/gimuy", "/a/yg", "/\\//", "null", "true", "false"];
    let names: &[&str] = &["a", "$", "_", "é", "\\u0061", "let", "get", "set", "of", "async", "await", "static", "target", "from", "eval", "arguments", "yield", "public", "implements", "interface", "package", "private", "protected", "l\\u0065t", "\\u{67}et", "ev\\u0061l", "\\u{6f}f", "if", "null", "in"];
    let spots: &[&str] = &["x = @ ;", "@ ;", "x = { @ : 1 } ;", "x = { @ } ;", "x = { get @ ( ) { } } ;", "x = { @ ( ) { } } ;", "x . @ ;", "x [ @ ] ;", "var @ ;", "var a = @ ;", "function @ ( ) { }", "function f ( @ ) { }", "function f ( ... @ ) { }", "@ : ;", "@ : while ( 1 ) { break @ ; continue @ }", "try { } catch ( @ ) { }", "( function @ ( ) { } )", "for ( @ in x ) ;", "for ( var @ of x ) ;", "let @ = 1 ;", "const @ = 1 ;", "[ @ ] = x ;", "( { @ } = x ) ;", "@ ; @ ; a", "function f ( ) { @ ; a }", "x = { set p ( @ ) { } } ;", "@ ++ ;", "- @ ;", "case1 : switch ( @ ) { case @ : }"];
    product(run, &[spots.len(), lits.len() + names.len()], |ix, acc| run.case(fill(spots[ix[0]], lits.iter().chain(names).nth(ix[1]).unwrap()).as_bytes(), acc));
}

// ---------------------------------------------------------------- E02

/// The node types the reader knows.
const KNOWN: &[&str] = &["Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression", "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression", "SequenceExpression", "ObjectExpression", "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement", "RestElement", "FunctionDeclaration", "VariableDeclaration", "EmptyStatement", "ExpressionStatement", "IfStatement", "DoWhileStatement", "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "BlockStatement", "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "SwitchStatement", "WithStatement", "ThrowStatement", "DebuggerStatement", "TryStatement"];
const TAGS: &[&str] = &["Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression", "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression", "SequenceExpression", "ObjectExpression", "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement", "RestElement", "FunctionDeclaration", "VariableDeclaration", "EmptyStatement", "ExpressionStatement", "IfStatement", "DoWhileStatement", "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "BlockStatement", "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "SwitchStatement", "WithStatement", "ThrowStatement", "DebuggerStatement", "TryStatement",
    "Program", "Property", "VariableDeclarator", "SwitchCase", "CatchClause", "ArrayPattern", "ObjectPattern", "ArrowFunctionExpression", "ClassDeclaration", "TemplateLiteral", "YieldExpression", "Super", "identifier", "IdentifierX", ""];

/// The values put in place of a part.
fn replacements() -> Vec<Value> {
    let mut v = vec![Value::Null, b(true), b(false), Value::U64(1), Value::I64(-1), Value::F64(1.5), s(""), s("x"), s("="), s("+="), s("-"), s("&&"), s("in"), s("typeof"), s("++"), s("--"), s("var"), s("let"), s("const"), s("init"), s("get"), s("set"), s("new"),
        Value::Array(vec![]), Value::Array(vec![Value::Null]), Value::Array(vec![ident("x")]), Value::Array(vec![node("EmptyStatement", vec![])]), Value::Object(Map::new())];
    for src in ["x", "x . y", "[ x ]", "[ ... x , y ]", "{ x }", "( { x : y } )", "( { get x ( ) { } } )", "'d'", "'d' ; x", "1", "/r/g", "null", ";", "var x ;", "var x = 1 ;", "var x , y ;", "let x ;", "const x = 1 ;", "function f ( x ) { 'd' }", "( function ( ... x ) { } )", "x = y", "x ( ... y )", "x , y", "( function ( ) { return new . target } )", "this", "try { } finally { }", "switch ( x ) { default : }", "x ++", "- x"] {
        let p = match refparse::parse(&Text::new(src), Mode::Script).0 { Ok(p) => program(&p), Err(e) => panic!("{}: {:?}", src, e) };
        let first = obj(&p).ok().and_then(|o| list(o, "body").ok()).unwrap()[0].clone();
        if let Some(e) = first.as_object().and_then(|o| o.get("expression")) { v.push(e.clone()); }
        v.push(first);
    }
    v.push(node("SpreadElement", vec![("argument", ident("x"))]));
    v.push(node("RestElement", vec![("argument", ident("x"))]));
    v.push(node("CatchClause", vec![("param", ident("x")), ("body", node("BlockStatement", vec![("body", Value::Array(vec![]))]))]));
    v.push(node("Literal", vec![("value", Value::Null), ("regex", Value::Null)]));
    v.push(node("Literal", vec![("value", Value::Object(Map::new()))]));
    v.push(node("Nonsense", vec![]));
    v
}

/// Visits every slot (object field or array element) in preorder; true once done.
fn slot(v: &mut Value, at: &mut usize, f: &mut dyn FnMut(&mut Value, Slot)) -> bool {
    match *v {
        Value::Object(_) => {
            let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
            for k in keys {
                if *at == 0 { f(v, Slot::Field(k)); return true; }
                *at -= 1;
                if let Value::Object(ref mut m) = *v { if slot(m.get_mut(&k).unwrap(), at, f) { return true; } }
            }
            false
        }
        Value::Array(_) => {
            let len = v.as_array().unwrap().len();
            for i in 0..len {
                if *at == 0 { f(v, Slot::Item(i)); return true; }
                *at -= 1;
                if let Value::Array(ref mut a) = *v { if slot(&mut a[i], at, f) { return true; } }
            }
            false
        }
        _ => false,
    }
}
enum Slot { Field(String), Item(usize) }
fn slots(v: &Value) -> usize {
    match *v {
        Value::Object(ref o) => o.len() + o.values().map(slots).sum::<usize>(),
        Value::Array(ref a) => a.len() + a.iter().map(slots).sum::<usize>(),
        _ => 0,
    }
}
/// Deletion, duplication, nesting, exchange with the next, then the replacements.
const SHAPES: usize = 5;
thread_local! { static PARTS: Vec<Value> = replacements(); }
/// None: nothing to change there.  True: one fault at most comes of it.
fn mutate(v: &mut Value, site: usize, how: usize) -> Option<bool> {
    let mut done = None;
    let mut at = site;
    slot(v, &mut at, &mut |holder, place| {
        let word = matches!(place, Slot::Field(ref k) if ["type", "kind", "method", "shorthand", "computed"].contains(&&k[..]));
        let unknown = how >= SHAPES && TAGS.get(how - SHAPES).map_or(false, |t| !KNOWN.contains(t));
        done = Some(how != 4 && !(word && how >= SHAPES && !unknown));
        let put = |x: Option<Value>, holder: &mut Value| match (holder, &place) {
            (Value::Object(m), Slot::Field(k)) => { match x { Some(x) => { m.insert(k.clone(), x); } None => { m.remove(k); } } }
            (Value::Array(a), Slot::Item(i)) => { match x { Some(x) => a[*i] = x, None => { a.remove(*i); } } }
            _ => unreachable!(),
        };
        let old = match (&*holder, &place) { (Value::Object(m), Slot::Field(k)) => m[k].clone(), (Value::Array(a), Slot::Item(i)) => a[*i].clone(), _ => unreachable!() };
        match how {
            0 => put(None, holder),
            1 => match (holder, &place) { (Value::Array(a), Slot::Item(i)) => a.insert(*i, old), (h, _) => put(Some(Value::Array(vec![old])), h) },
            2 => match (&old, &place) { (Value::Array(a), _) if !a.is_empty() => put(Some(a[0].clone()), holder), (_, Slot::Field(k)) if k == "type" => put(Some(s("Block")), holder), _ => put(Some(node("BlockStatement", vec![("body", Value::Array(vec![old]))])), holder) },
            3 => match (holder, &place) { (Value::Array(a), Slot::Item(i)) if *i + 1 < a.len() => a.swap(*i, *i + 1), (Value::Object(m), Slot::Field(k)) => { let x = m.remove(k).unwrap(); m.insert(format!("{}s", k), x); } _ => done = None },
            4 => match (holder, &place) { (Value::Object(m), Slot::Field(k)) => {
                // Exchange with another field.
                let other: Option<String> = m.keys().find(|o| *o > k && *o != "type").cloned();
                match other { Some(o) => { let y = m[&o].clone(); m.insert(o, old); m.insert(k.clone(), y); } None => done = None }
            } _ => done = None },
            h => {
                let h = h - SHAPES;
                match place {
                    Slot::Field(ref k) if k == "type" => if h < TAGS.len() { put(Some(s(TAGS[h])), holder) } else { done = None },
                    _ => PARTS.with(|p| if h < p.len() { put(Some(p[h].clone()), holder) } else { done = None }),
                }
            }
        }
    });
    done
}

/// Case: a program, a NUL, then `site.change` for each change.
pub fn malformed(case: &[u8], acc: &mut Acc) -> Check {
    let src = std::str::from_utf8(case).expect("case text");
    let (src, changes) = src.split_once('\0').unwrap();
    let x = match refparse::parse(&Text::new(src), Mode::Script).0 { Ok(x) => x, _ => return Ok(()) };
    let mut v = program(&x);
    acc.transitions += 1;
    let mut single = !changes.contains(' ');
    for c in changes.split_whitespace() {
        let (site, how) = c.split_once('.').unwrap();
        match mutate(&mut v, site.parse().unwrap(), how.parse().unwrap()) { Some(x) => single &= x, None => return Ok(()) }
    }
    acc.sample(|| serde_json::to_string(&v).unwrap_or_default());
    match judge(&v, single, acc) {
        Ok(_) => Ok(()),
        Err(mut f) => { f.msg = format!("{} — in {}", f.msg, serde_json::to_string(&v).unwrap_or_default()); Err(f) }
    }
}

pub fn changes(run: &Run) {
    let mut all: Vec<String> = vec![];
    let ok = |p: &str| matches!(refparse::parse(&Text::new(p), Mode::Script).0, Ok(_));
    for e in EXPRS { let p = format!("x = {} ;", e); if ok(&p) { all.push(p); } }
    for p in STMTS { if ok(p) { all.push(p.to_string()); } }
    for c in STMT_CTX { for p in ["a ;", "{ }", "function g ( ) { }"] { let p = fill(c, p); if ok(&p) { all.push(p); } } }
    for e in ["a", "'s'", "[ a ] = b", "{ a : b } = c", "f ( ... a )"] { for c in EXPR_STMT_CTX { let p = fill(c, e); if ok(&p) { all.push(p); } } }
    let hows = SHAPES + PARTS.with(|p| p.len()).max(TAGS.len());
    let tree = |p: &str| program(&refparse::parse(&Text::new(p), Mode::Script).0.ok().unwrap());
    run.par(all.len(), |i, acc| {
        let p = &all[i];
        let k = slots(&tree(p));
        for site in 0..k { for how in 0..hows { run.case(format!("{}\0{}.{}", p, site, how).as_bytes(), acc); } }
    });
    // Two changes, of a coarser kind.
    let coarse: Vec<usize> = if run.quick() { vec![0, 1, SHAPES, SHAPES + 7] } else { vec![0, 1, 2, 3, 4, SHAPES, SHAPES + 1, SHAPES + 2, SHAPES + 3, SHAPES + 7, SHAPES + 23, SHAPES + 27, SHAPES + 28, SHAPES + 30] };
    let limit = run.bound(30, 60);
    run.par(all.len(), |i, acc| {
        let p = &all[i];
        let k = slots(&tree(p));
        if k > limit { return; }
        for a in 0..k { for &x in &coarse {
            let mut v = tree(p);
            if mutate(&mut v, a, x).is_none() { continue; }
            let m = slots(&v);
            for c in a..m { for &y in &coarse { run.case(format!("{}\0{}.{} {}.{}", p, a, x, c, y).as_bytes(), acc); } }
        } }
    });
    run.note("trees", all.len() as u64);
    run.note("changes_per_slot", hows as u64);
    run.note("slots_of_trees_changed_twice", limit as u64);
    let _ = Kind::Eof;
}
