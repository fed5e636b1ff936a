//! Checks of the JSON destructuring interface.
//!
//! The model of a JSON value is `M`; `real` turns it into serde_json's value.
//! A case is a text: `J01: <accessor>|<value>`, `J02: <op;op;...>|<object>`.
//! Values are written in JSON, with i/u/f prefixes that fix the representation
//! of a number (`u5`, `i-5`, `f5`), because the library is handed values built
//! in any of the three.

use mc_core::{guarded, Acc, Fail, Prop, Run};
use serde_json::value::Value;
use std::collections::BTreeMap;
use unjson::error::Error;
use unjson::ty::{Object, Ty, TyOf};
use unjson::{ExtractField, GetField, Unjson};

#[derive(Clone, Debug, PartialEq)]
enum M { Null, Bool(bool), I(i64), U(u64), F(f64), Str(String), Arr(Vec<M>), Obj(BTreeMap<String, M>) }

fn real(m: &M) -> Value {
    match *m {
        M::Null => Value::Null,
        M::Bool(b) => Value::Bool(b),
        M::I(i) => Value::I64(i),
        M::U(u) => Value::U64(u),
        M::F(f) => Value::F64(f),
        M::Str(ref s) => Value::String(s.clone()),
        M::Arr(ref a) => Value::Array(a.iter().map(real).collect()),
        M::Obj(ref o) => Value::Object(real_obj(o)),
    }
}
fn real_obj(o: &BTreeMap<String, M>) -> Object { o.iter().map(|(k, v)| (k.clone(), real(v))).collect() }

/// Back again, by inspection of the variants.
fn model(v: &Value) -> M {
    match *v {
        Value::Null => M::Null,
        Value::Bool(b) => M::Bool(b),
        Value::I64(i) => M::I(i),
        Value::U64(u) => M::U(u),
        Value::F64(f) => M::F(f),
        Value::String(ref s) => M::Str(s.clone()),
        Value::Array(ref a) => M::Arr(a.iter().map(model).collect()),
        Value::Object(ref o) => M::Obj(o.iter().map(|(k, v)| (k.clone(), model(v))).collect()),
    }
}

// ------------------------------------------------------------ case notation

fn write(m: &M, o: &mut String) {
    match *m {
        M::Null => o.push_str("null"),
        M::Bool(b) => o.push_str(if b { "true" } else { "false" }),
        M::I(i) => *o += &format!("i{}", i),
        M::U(u) => *o += &format!("u{}", u),
        M::F(f) => *o += &format!("f{:?}", f),
        M::Str(ref s) => quote(s, o),
        M::Arr(ref a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } write(x, o); } o.push(']'); }
        M::Obj(ref b) => { o.push('{'); for (i, (k, x)) in b.iter().enumerate() { if i > 0 { o.push(','); } quote(k, o); o.push(':'); write(x, o); } o.push('}'); }
    }
}
fn quote(s: &str, o: &mut String) { o.push('"'); for c in s.chars() { if c == '"' || c == '\\' { o.push('\\'); } o.push(c); } o.push('"'); }
fn text(m: &M) -> String { let mut s = String::new(); write(m, &mut s); s }

/// Parses the notation.
fn parse(s: &str) -> M {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let m = value(&b, &mut i);
    assert!(i == b.len(), "trailing text in case");
    m
}
fn value(b: &[char], i: &mut usize) -> M {
    let word = |i: &mut usize| { let s = *i; while *i < b.len() && !",]}:".contains(b[*i]) { *i += 1; } b[s..*i].iter().collect::<String>() };
    let string = |i: &mut usize| { *i += 1; let mut s = String::new(); while b[*i] != '"' { if b[*i] == '\\' { *i += 1; } s.push(b[*i]); *i += 1; } *i += 1; s };
    match b[*i] {
        '"' => M::Str(string(i)),
        '[' => { *i += 1; let mut v = vec![]; while b[*i] != ']' { v.push(value(b, i)); if b[*i] == ',' { *i += 1; } } *i += 1; M::Arr(v) }
        '{' => { *i += 1; let mut o = BTreeMap::new(); while b[*i] != '}' { let k = string(i); *i += 1; o.insert(k, value(b, i)); if b[*i] == ',' { *i += 1; } } *i += 1; M::Obj(o) }
        _ => {
            let w = word(i);
            match &w[..] {
                "null" => M::Null,
                "true" => M::Bool(true),
                "false" => M::Bool(false),
                _ => match &w[..1] { "i" => M::I(w[1..].parse().unwrap()), "u" => M::U(w[1..].parse().unwrap()), _ => M::F(w[1..].parse().unwrap()) },
            }
        }
    }
}

// ------------------------------------------------------------ the model

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K { Field, Str, Arr, Obj, Bool, I64, U64, F64, Num }
const KINDS: [K; 9] = [K::Field, K::Str, K::Arr, K::Obj, K::Bool, K::I64, K::U64, K::F64, K::Num];

/// What an accessor hands out.
#[derive(Clone, Debug)]
enum Out { V(M), S(String), A(Vec<M>), O(BTreeMap<String, M>), B(bool), I(i64), U(u64), F(f64), None }

fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::V(a), Out::V(b)) => text(a) == text(b),
        (Out::S(a), Out::S(b)) => a == b,
        (Out::A(a), Out::A(b)) => text(&M::Arr(a.clone())) == text(&M::Arr(b.clone())),
        (Out::O(a), Out::O(b)) => text(&M::Obj(a.clone())) == text(&M::Obj(b.clone())),
        (Out::B(a), Out::B(b)) => a == b,
        (Out::I(a), Out::I(b)) => a == b,
        (Out::U(a), Out::U(b)) => a == b,
        (Out::F(a), Out::F(b)) => a.to_bits() == b.to_bits(),
        (Out::None, Out::None) => true,
        _ => false,
    }
}

type Res = Result<Out, String>;

fn ty_name(m: &M) -> &'static str {
    match *m { M::Null => "null", M::Bool(_) => "boolean", M::I(_) | M::U(_) | M::F(_) => "number", M::Str(_) => "string", M::Arr(_) => "array", M::Obj(_) => "object" }
}
fn expected(k: K) -> &'static str {
    match k { K::Field => "", K::Str => "string", K::Arr => "array", K::Obj => "object", K::Bool => "boolean", K::I64 => "i64", K::U64 => "u64", K::F64 => "f64", K::Num => "number" }
}

/// The specification of every accessor.
fn spec(k: K, opt: bool, m: &M) -> Res {
    if opt && *m == M::Null { return Ok(Out::None); }
    let f = match *m { M::I(i) => Some(i as f64), M::U(u) => Some(u as f64), M::F(f) => Some(f), _ => None };
    let out = match (k, m) {
        (K::Field, m) => Some(Out::V(m.clone())),
        (K::Str, M::Str(s)) => Some(Out::S(s.clone())),
        (K::Arr, M::Arr(a)) => Some(Out::A(a.clone())),
        (K::Obj, M::Obj(o)) => Some(Out::O(o.clone())),
        (K::Bool, M::Bool(b)) => Some(Out::B(*b)),
        (K::I64, M::I(i)) => Some(Out::I(*i)),
        (K::I64, M::U(u)) if *u <= i64::MAX as u64 => Some(Out::I(*u as i64)),
        (K::U64, M::U(u)) => Some(Out::U(*u)),
        (K::U64, M::I(i)) if *i >= 0 => Some(Out::U(*i as u64)),
        (K::F64, _) | (K::Num, _) => f.map(Out::F),
        _ => None,
    };
    out.ok_or_else(|| format!("expected {}{}, got {}", expected(k), if opt { " or null" } else { "" }, ty_name(m)))
}

// ------------------------------------------------------------ the real thing

fn err<T>(e: Result<T, Error>) -> Result<T, String> {
    e.map_err(|e| {
        let shown = format!("{}", e);
        // The message is derived from the structured error.
        let structured = match e {
            Error::TypeMismatch(x, ty) => format!("expected {}, got {}", x, match ty { Ty::Null => "null", Ty::Boolean => "boolean", Ty::String => "string", Ty::Number => "number", Ty::Object => "object", Ty::Array => "array", #[allow(unreachable_patterns)] _ => "unknown" }),
            Error::MissingField(n) => format!("missing object field '{}'", n),
            ref e => format!("{:?}", e),
        };
        if shown == structured { shown } else { format!("{} (displayed as {:?})", structured, shown) }
    })
}

/// `how`: 'v' on a value, 'g' get from an object, 'x' extract from an object.
fn access(how: char, k: K, opt: bool, v: &Value, o: &mut Object, name: &'static str) -> Res {
    macro_rules! some { ($e:expr, $c:expr) => { err($e).map(|x| match x { Some(x) => $c(x), None => Out::None }) } }
    let va = |a: &Vec<Value>| Out::A(a.iter().map(model).collect());
    let vo = |a: &Object| Out::O(a.iter().map(|(k, v)| (k.clone(), model(v))).collect());
    let vs = |s: &str| Out::S(s.to_string());
    match (how, k, opt) {
        ('v', K::Field, _) => Ok(Out::V(model(v))),
        ('v', K::Str, false) => err(v.clone().into_string()).map(Out::S),
        ('v', K::Str, true) => some!(v.clone().into_string_opt(), Out::S),
        ('v', K::Arr, false) => err(v.clone().into_array()).map(|a| va(&a)),
        ('v', K::Arr, true) => some!(v.clone().into_array_opt(), |a| va(&a)),
        ('v', K::Obj, false) => err(v.clone().into_object()).map(|a| vo(&a)),
        ('v', K::Obj, true) => some!(v.clone().into_object_opt(), |a| vo(&a)),
        ('v', K::Bool, false) => err(v.to_bool()).map(Out::B),
        ('v', K::Bool, true) => some!(v.to_bool_opt(), Out::B),
        ('v', K::I64, false) => err(v.to_i64()).map(Out::I),
        ('v', K::I64, true) => some!(v.to_i64_opt(), Out::I),
        ('v', K::U64, false) => err(v.to_u64()).map(Out::U),
        ('v', K::U64, true) => some!(v.to_u64_opt(), Out::U),
        ('v', K::F64, false) => err(v.to_f64()).map(Out::F),
        ('v', K::F64, true) => some!(v.to_f64_opt(), Out::F),
        ('v', K::Num, false) => err(v.to_number()).map(Out::F),
        ('v', K::Num, true) => some!(v.to_number_opt(), Out::F),
        ('g', K::Field, _) => err(o.get_field(name)).map(|v| Out::V(model(v))),
        ('g', K::Str, false) => err(o.get_string(name)).map(vs),
        ('g', K::Str, true) => some!(o.get_string_opt(name), vs),
        ('g', K::Arr, false) => err(o.get_array(name)).map(va),
        ('g', K::Arr, true) => some!(o.get_array_opt(name), va),
        ('g', K::Obj, false) => err(o.get_object(name)).map(vo),
        ('g', K::Obj, true) => some!(o.get_object_opt(name), vo),
        ('g', K::Bool, false) => err(o.get_bool(name)).map(Out::B),
        ('g', K::Bool, true) => some!(o.get_bool_opt(name), Out::B),
        ('g', K::I64, false) => err(o.get_i64(name)).map(Out::I),
        ('g', K::I64, true) => some!(o.get_i64_opt(name), Out::I),
        ('g', K::U64, false) => err(o.get_u64(name)).map(Out::U),
        ('g', K::U64, true) => some!(o.get_u64_opt(name), Out::U),
        ('g', K::F64, false) => err(o.get_f64(name)).map(Out::F),
        ('g', K::F64, true) => some!(o.get_f64_opt(name), Out::F),
        ('g', K::Num, false) => err(o.get_number(name)).map(Out::F),
        ('g', K::Num, true) => some!(o.get_number_opt(name), Out::F),
        ('x', K::Field, _) => err(o.extract_field(name)).map(|v| Out::V(model(&v))),
        ('x', K::Str, false) => err(o.extract_string(name)).map(Out::S),
        ('x', K::Str, true) => some!(o.extract_string_opt(name), Out::S),
        ('x', K::Arr, false) => err(o.extract_array(name)).map(|a| va(&a)),
        ('x', K::Arr, true) => some!(o.extract_array_opt(name), |a| va(&a)),
        ('x', K::Obj, false) => err(o.extract_object(name)).map(|a| vo(&a)),
        ('x', K::Obj, true) => some!(o.extract_object_opt(name), |a| vo(&a)),
        ('x', K::Bool, false) => err(o.extract_bool(name)).map(Out::B),
        ('x', K::Bool, true) => some!(o.extract_bool_opt(name), Out::B),
        ('x', K::I64, false) => err(o.extract_i64(name)).map(Out::I),
        ('x', K::I64, true) => some!(o.extract_i64_opt(name), Out::I),
        ('x', K::U64, false) => err(o.extract_u64(name)).map(Out::U),
        ('x', K::U64, true) => some!(o.extract_u64_opt(name), Out::U),
        ('x', K::F64, false) => err(o.extract_f64(name)).map(Out::F),
        ('x', K::F64, true) => some!(o.extract_f64_opt(name), Out::F),
        ('x', K::Num, false) => err(o.extract_number(name)).map(Out::F),
        ('x', K::Num, true) => some!(o.extract_number_opt(name), Out::F),
        _ => unreachable!(),
    }
}

const NAMES: &[&str] = &["a", "b", "", "type", "\u{3c0}", "abc", "A", "a.b", "a/b", "0", "-1", " a", "a ", "__proto__", "null", "length", "a\\b", "it's", "{}", "a\nb", "e\u{301}", "\u{1f600}",
    "type_", "_type", "_", "a_", "$a", "Type", "types", "aa", "ab", "ba", "a1", "kind", "start", "end", "loc", "value", "name", "raw", "body", "0x1", "01", "\0", "$ref", "@type", "#", "a[0]", "a-b", "camelCase", "snake_case",
    "a_name_that_is_longer_than_any_inline_buffer_could_reasonably_be_and_then_some"];
/// Strings that an error may have to show.
const SHOWN: &[&str] = &["", "a", "'", "\"", "\\", "\n", "\t", "\0", "\u{7f}", "\u{e9}", "\u{2028}", "\u{1f600}", "\u{301}", "{}", "{0}", "%s", "a\"b'c\\d", " ", "null", "a_string_that_is_longer_than_any_inline_buffer_could_reasonably_be_and_then_some"];
fn name_at(i: usize) -> &'static str { NAMES[i] }
/// Other names that resemble a name: one edit away, or what a lookup that
/// trims, folds, splits or truncates its argument would look for.
fn near(name: &str) -> Vec<String> {
    let c: Vec<char> = name.chars().collect();
    let of = |c: &[char]| c.iter().cloned().collect::<String>();
    let mut v = vec![name.to_uppercase(), name.to_lowercase(), name.trim().to_string(), c.iter().rev().cloned().collect(), format!("{}{}", name, name), format!("'{}'", name), format!("\"{}\"", name),
        name.trim_matches('_').to_string(), name.trim_matches(|c: char| !c.is_alphanumeric()).to_string(), name.replace('_', ""), name.replace('_', "-"), name.replace('-', "_"), String::new()];
    v.extend(name.split(|c: char| !c.is_alphanumeric()).map(|s| s.to_string()));
    for i in 0..c.len() {
        let mut d = c.clone(); d.remove(i); v.push(of(&d));
        let mut d = c.clone(); d.insert(i, c[i]); v.push(of(&d));
        if i > 0 { let mut d = c.clone(); d.swap(i - 1, i); v.push(of(&d)); v.push(of(&c[..i])); v.push(of(&c[i..])); }
        let flip = if c[i].is_uppercase() { c[i].to_lowercase().collect::<String>() } else { c[i].to_uppercase().collect() };
        v.push(format!("{}{}{}", of(&c[..i]), flip, of(&c[i + 1..])));
    }
    for x in ["_", " ", "$", ".", "0", "s", "\0", "a", "?", "-", "@", "\u{301}", "\u{feff}", ".b", "/b", "[0]"] { v.push(format!("{}{}", x, name)); v.push(format!("{}{}", name, x)); }
    v.sort();
    v.dedup();
    v.retain(|n| n != name);
    v
}

/// An operation: how, kind, optional, name index; spelled e.g. `xI?2`.
const LETTERS: &str = "fsaobiudn";
fn spell(how: char, k: usize, opt: bool, n: usize) -> String {
    format!("{}{}{}{}", how, LETTERS.as_bytes()[k] as char, if opt { "?" } else { "" }, n)
}
fn unspell(s: &str) -> (char, K, bool, usize) {
    let c: Vec<char> = s.chars().collect();
    let k = KINDS[LETTERS.find(c[1]).unwrap()];
    let opt = c[2] == '?';
    (c[0], k, opt, s[if opt { 3 } else { 2 }..].parse().unwrap())
}

fn split(case: &[u8]) -> (&str, &str) { std::str::from_utf8(case).unwrap().split_once('|').unwrap() }

fn show(r: &Res) -> String { format!("{:?}", r) }

// ------------------------------------------------------------ oracles

/// One accessor on one value, directly and as the field of an object.
fn check_access(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let (op, v) = split(case);
    let (_, k, opt, n) = unspell(op);
    let m = parse(v);
    let name = name_at(n);
    let want = spec(k, opt, &m);
    acc.outcome((k, opt, std::mem::discriminant(&m), want.is_ok()));
    acc.sample(|| format!("{} of {}: {}", op, v, show(&want)));
    let value = real(&m);
    let mut similar = near(name);
    if v.len() > 12 { similar.retain(|s| s.len() <= name.len()); similar.truncate(6); }
    let mut hows = vec!['v', 'g', 'x'];
    if k == K::Field { hows = vec!['g', 'x']; }
    for how in hows {
        acc.states += 1;
        acc.transitions += 1;
        let mut mo: BTreeMap<String, M> = BTreeMap::new();
        mo.insert(name.to_string(), m.clone());
        mo.insert("zz".into(), M::Arr(vec![M::Null]));
        // Fields whose names resemble this one's.
        for other in &similar {
            if other != name { mo.insert(other.clone(), M::Obj(BTreeMap::from([(name.to_string(), M::Null), ("b".to_string(), M::Bool(false))]))); }
        }
        let mut o = real_obj(&mo);
        let got = guarded(|| access(how, k, opt, &value, &mut o, name))
            .map_err(|p| Fail::new("panic", format!("{} {} on {} panics: {}", how, op, v, p)))?;
        let ok = match (&want, &got) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false };
        if !ok { return Err(Fail::new("access", format!("{} ({}) of {}: expected {}, got {}", op, how, v, show(&want), show(&got)))); }
        if how == 'x' { mo.remove(name); }
        if text(&M::Obj(mo)) != text(&M::Obj(o.iter().map(|(k, v)| (k.clone(), model(v))).collect())) {
            return Err(Fail::new("object", format!("{} ({}) leaves the wrong object behind: {:?}", op, how, o)));
        }
        // Absent: the error names the field and the object does not change.
        if how != 'v' {
            let mut others = BTreeMap::from([("zz".to_string(), M::Null), (format!("{}x", name), m.clone())]);
            for other in &similar {
                if other != name { others.insert(other.clone(), M::Obj(BTreeMap::from([("b".to_string(), m.clone()), (name.to_string(), m.clone())]))); }
            }
            let mut empty = real_obj(&others);
            let before = empty.clone();
            let got = guarded(|| access(how, k, opt, &value, &mut empty, name)).map_err(|p| Fail::new("panic", p))?;
            match got { Err(ref e) if *e == format!("missing object field '{}'", name) => {}, ref g => return Err(Fail::new("missing", format!("{} ({}) of an absent field: {}", op, how, show(g)))) }
            if text(&model(&Value::Object(empty))) != text(&model(&Value::Object(before))) { return Err(Fail::new("object", "a failed lookup changes the object".to_string())); }
        }
    }
    if format!("{}", value.ty()) != ty_name(&m) { return Err(Fail::new("ty", format!("type of {} reported as {}", v, value.ty()))); }
    Ok(())
}

/// A history of operations on one object.
fn check_history(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let (ops, v) = split(case);
    let mut m = match parse(v) { M::Obj(o) => o, _ => unreachable!() };
    let mut o = real_obj(&m);
    acc.sample(|| String::from_utf8_lossy(case).into_owned());
    let mut sig = vec![];
    for (i, op) in ops.split(';').filter(|s| !s.is_empty()).enumerate() {
        let (how, k, opt, n) = unspell(op);
        let name = name_at(n);
        acc.states += 1;
        acc.transitions += 1;
        let want = match m.get(name) { Some(x) => spec(k, opt, x), None => Err(format!("missing object field '{}'", name)) };
        if how == 'x' { m.remove(name); }
        let got = guarded(|| access(how, k, opt, &Value::Null, &mut o, name))
            .map_err(|p| Fail::new("panic", format!("step {} ({}) panics: {}", i + 1, op, p)))?;
        let ok = match (&want, &got) { (Ok(a), Ok(b)) => same(a, b), (Err(a), Err(b)) => a == b, _ => false };
        if !ok { return Err(Fail::new("history", format!("step {} ({} {:?}): expected {}, got {}", i + 1, op, name, show(&want), show(&got)))); }
        let now: BTreeMap<String, M> = o.iter().map(|(k, v)| (k.clone(), model(v))).collect();
        if text(&M::Obj(now.clone())) != text(&M::Obj(m.clone())) {
            return Err(Fail::new("object", format!("after step {} ({} {:?}) the object is {}, expected {}", i + 1, op, name, text(&M::Obj(now)), text(&M::Obj(m)))));
        }
        sig.push((want.is_ok(), m.len()));
    }
    acc.outcome(sig);
    Ok(())
}

/// Error constructors: `<constructor>|<a>,<b>`.
fn check_error(case: &[u8], acc: &mut Acc) -> Result<(), Fail> {
    let (which, args) = split(case);
    let (a, b) = args.split_once(',').unwrap();
    let (x, y): (usize, usize) = (a.parse().unwrap_or(0), b.parse().unwrap_or(0));
    let types = [Ty::Null, Ty::Boolean, Ty::String, Ty::Number, Ty::Object, Ty::Array];
    let names = ["null", "boolean", "string", "number", "object", "array"];
    acc.states += 1;
    acc.transitions += 1;
    let (got, want, eq): (Error, String, Error) = match which {
        "type" => (unjson::error::type_error::<()>(name_at(x), types[y]).unwrap_err(), format!("expected {}, got {}", name_at(x), names[y]), Error::TypeMismatch(name_at(x), types[y])),
        "field" => (unjson::error::field_error::<()>(name_at(x)).unwrap_err(), format!("missing object field '{}'", name_at(x)), Error::MissingField(name_at(x))),
        "array" => (unjson::error::array_error::<()>(x, y).unwrap_err(), format!("expected array of length {}, got array of length {}", x, y), Error::WrongArrayLength(x, y)),
        "index" => (unjson::error::index_error::<()>(x, y).unwrap_err(), format!("array index {} out of bounds (length {})", y, x), Error::IndexOutOfBounds(x, y)),
        _ => (unjson::error::string_error::<()>(name_at(x), SHOWN[y].to_string()).unwrap_err(), format!("expected {}, got {:?}", name_at(x), SHOWN[y]), Error::IllegalString(name_at(x), SHOWN[y].to_string())),
    };
    acc.outcome(&want);
    acc.sample(|| want.clone());
    if got != eq { return Err(Fail::new("error", format!("{} builds {:?}", which, got))); }
    if format!("{}", got) != want { return Err(Fail::new("message", format!("{:?} is displayed as {:?}, expected {:?}", got, format!("{}", got), want))); }
    Ok(())
}

// ------------------------------------------------------------ spaces

fn leaves(deep: bool) -> Vec<M> {
    let mut v = vec![M::Null, M::Bool(true), M::Bool(false)];
    let mut ints: Vec<i128> = vec![0, 1, -1, 5, -5, 42, 100];
    for p in 1..64 { for d in [-1i128, 0, 1] { ints.push((1i128 << p) + d); ints.push(-(1i128 << p) + d); } }
    ints.extend([i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128 - 1]);
    ints.sort();
    ints.dedup();
    for n in ints {
        if n >= i64::MIN as i128 && n <= i64::MAX as i128 { v.push(M::I(n as i64)); }
        if n >= 0 && n <= u64::MAX as i128 { v.push(M::U(n as u64)); }
        v.push(M::F(n as f64));
    }
    for f in [-0.0, 0.5, 1.5, -1.5, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0, 1.0 - f64::EPSILON] { v.push(M::F(f)); }
    for s in ["", "a", "null", "5", "true", "\u{3c0}", "string", "[]"] { v.push(M::Str(s.into())); }
    if deep { for i in 0..3000 { v.push(M::I(i - 1500)); v.push(M::U(i as u64)); v.push(M::F(i as f64 / 8.0)); } }
    v
}

fn small() -> Vec<M> { vec![M::Null, M::Bool(true), M::I(-5), M::U(5), M::U(u64::MAX), M::F(5.0), M::Str("s".into()), M::Str("".into())] }

/// Every array and object of up to `n` elements over the given values.
fn composites(over: &[M], n: usize) -> Vec<M> {
    let mut seqs: Vec<Vec<M>> = vec![vec![]];
    let mut all = seqs.clone();
    for _ in 0..n {
        let mut next = vec![];
        for s in &seqs { for x in over { let mut t = s.clone(); t.push(x.clone()); next.push(t); } }
        all.extend(next.iter().cloned());
        seqs = next;
    }
    let mut out = vec![];
    for s in all {
        out.push(M::Obj(s.iter().enumerate().map(|(i, x)| (NAMES[i].to_string(), x.clone())).collect()));
        out.push(M::Arr(s));
    }
    out
}

fn values(run: &Run) -> Vec<M> {
    let mut v = leaves(!run.quick());
    v.extend(composites(&small(), if run.quick() { 3 } else { 4 }));
    let one = composites(&small(), 1);
    v.extend(composites(&one, 2));
    // Deep nesting and large aggregates.
    for d in [2usize, 3, 4, 16, 100] { let mut m = M::Null; for i in 0..d { m = if i % 2 == 0 { M::Arr(vec![m]) } else { M::Obj(BTreeMap::from([("k".to_string(), m)])) }; } v.push(m); }
    for n in [16usize, 255, 256, 257, 4096] { v.push(M::Arr(vec![M::U(1); n])); v.push(M::Obj((0..n).map(|i| (format!("k{}", i), M::I(-1))).collect())); v.push(M::Str("x".repeat(n))); }
    v
}

fn space_access(run: &Run) {
    let vs = values(run);
    run.note("values", vs.len() as u64);
    run.note("accessors", 17);
    run.par(vs.len(), |i, acc| {
        let t = text(&vs[i]);
        for k in 0..9 { for opt in [false, true] {
            if k == 0 && opt { continue; }
            for n in 0..if t.len() < 5 { NAMES.len() } else { 4 } { run.case(format!("{}|{}", spell('v', k, opt, n), t).as_bytes(), acc); }
        } }
    });
}

fn space_history(run: &Run) {
    let objects: Vec<String> = composites(&[M::Null, M::I(-1), M::U(1), M::Str("s".into()), M::Arr(vec![]), M::Bool(false)], 2).iter().filter(|m| if let M::Obj(_) = m { true } else { false }).map(text).collect();
    let mut ops = vec![];
    for n in 0..3 { for k in 0..9 { for opt in [false, true] { for how in ['g', 'x'] { if k == 0 && opt { continue; } ops.push(spell(how, k, opt, n)); } } } }
    run.note("objects", objects.len() as u64);
    run.note("operations", ops.len() as u64);
    let (full, short) = if run.quick() { (2, 4) } else { (3, 5) };
    run.note("history length, all operations", full as u64);
    run.par(objects.len(), |i, acc| {
        for len in 1..=full { each(&ops, len, &mut vec![], &mut |h| run.case(format!("{}|{}", h.join(";"), objects[i]).as_bytes(), acc)); }
    });
    // Objects of many fields, of which the first, a middle, the last and absent ones are used.
    let mut big: Vec<String> = vec![];
    for n in [3usize, 5, 6, 7, 11, 12, 13, 23, 24, 100, 300] {
        for first in [M::Null, M::I(-1), M::U(1), M::F(0.5), M::Str("s".into()), M::Arr(vec![M::Null]), M::Obj(BTreeMap::new()), M::Bool(true)] {
            let mut o: BTreeMap<String, M> = (0..n).map(|i| (format!("k{}", i), M::U(i as u64))).collect();
            for (k, v) in [("a", first.clone()), ("b", M::Str("b".into())), ("type", first.clone())] { o.insert(k.to_string(), v); }
            big.push(text(&M::Obj(o)));
        }
    }
    run.note("objects of many fields", big.len() as u64);
    let mut few = vec![];
    for n in [0, 1, 3] { for k in 0..9 { for how in ['g', 'x'] { few.push(spell(how, k, k % 2 == 1, n)); } } }
    run.par(big.len(), |i, acc| for len in 1..=2 { each(&few, len, &mut vec![], &mut |h| run.case(format!("{}|{}", h.join(";"), big[i]).as_bytes(), acc)); });
    // Every subset of ten names, with every short history over them.
    let names: Vec<usize> = ["a", "b", "", "type", "kind", "start", "loc", "value", "type_", "A"].iter().map(|n| NAMES.iter().position(|m| m == n).unwrap()).collect();
    let two: Vec<String> = names.iter().flat_map(|&n| ['g', 'x'].map(|h| spell(h, 0, false, n))).collect();
    let hist = run.bound(2, 3);
    run.note("history length on every subset of ten names", hist as u64);
    run.par(1 << names.len(), |set, acc| {
        let o = text(&M::Obj((0..names.len()).filter(|i| set >> i & 1 == 1).map(|i| (NAMES[names[i]].to_string(), M::U(i as u64))).collect()));
        for len in 1..=hist { each(&two, len, &mut vec![], &mut |h| run.case(format!("{}|{}", h.join(";"), o).as_bytes(), acc)); }
    });
    // Every object of one or two fields whose names resemble the one asked for.
    run.par(NAMES.len(), |n, acc| {
        let vals = [M::Null, M::U(7), M::Str("s".into()), M::Obj(BTreeMap::new())];
        for x in near(NAMES[n]) { for v in &vals { for with in 0..2 {
            let mut o = BTreeMap::from([(x.clone(), v.clone())]);
            if with == 1 { o.insert(NAMES[n].to_string(), M::U(8)); }
            let t = text(&M::Obj(o));
            for k in 0..9 { for opt in [false, true] { for how in ['g', 'x'] {
                if k == 0 && opt { continue; }
                let op = spell(how, k, opt, n);
                run.case(format!("{}|{}", op, t).as_bytes(), acc);
                if k == 0 { run.case(format!("{};{}|{}", op, op, t).as_bytes(), acc); }
            } } }
        } } }
    });
    // Longer histories over a subset.
    let sub: Vec<String> = [("x", 0), ("x", 1), ("g", 0), ("g", 5)].iter().flat_map(|&(h, k)| (0..3).map(move |n| spell(h.chars().next().unwrap(), k, false, n))).collect();
    run.note("history length, get and extract of three fields", short as u64);
    run.par(objects.len(), |i, acc| {
        for len in full + 1..=short { each(&sub, len, &mut vec![], &mut |h| run.case(format!("{}|{}", h.join(";"), objects[i]).as_bytes(), acc)); }
    });
}

fn each(ops: &[String], len: usize, h: &mut Vec<String>, f: &mut dyn FnMut(&[String])) {
    if h.len() == len { return f(h); }
    for o in ops { h.push(o.clone()); each(ops, len, h, f); h.pop(); }
}

fn space_error(run: &Run) {
    let n = run.bound(200, 1000);
    run.note("lengths and indices up to", n as u64);
    let mut edges: Vec<usize> = vec![0, 1, usize::MAX];
    for k in 1..64 { for d in [-1i128, 0, 1] { edges.push(((1i128 << k) + d) as usize); } }
    run.par(edges.len(), |x, acc| for y in &edges { for w in ["array", "index"] { run.case(format!("{}|{},{}", w, edges[x], y).as_bytes(), acc); } });
    run.par(n, |x, acc| {
        for y in 0..n {
            run.case(format!("array|{},{}", x, y).as_bytes(), acc);
            run.case(format!("index|{},{}", x, y).as_bytes(), acc);
            if x < NAMES.len() && y < 6 { run.case(format!("type|{},{}", x, y).as_bytes(), acc); run.case(format!("field|{},{}", x, y).as_bytes(), acc); }
            if x < NAMES.len() && y < SHOWN.len() { run.case(format!("string|{},{}", x, y).as_bytes(), acc); }
        }
    });
}

const A: &[&str] = &["serde_json 0.8 supplies the value type; numbers are given in each of its three representations"];
static PROPS: &[Prop] = &[
    Prop { id: "J01", rule: "every accessor (plain and optional; on a value, as a field read and as a field extraction) on every value of the catalogue: integers around every power of two in all representations, floats, and all arrays and objects up to a size", assumptions: A, run: space_access, check: check_access },
    Prop { id: "J02", rule: "every history of get and extract operations up to a length on every small object, in lock step with a map model; the object is compared after every step", assumptions: A, run: space_history, check: check_history },
    Prop { id: "J03", rule: "every error constructor with every argument up to a bound", assumptions: &[], run: space_error, check: check_error },
];

fn main() {
    // What a thread has by default: nothing here may need depth in proportion to the text.
    mc_core::STACK.store(2 << 20, std::sync::atomic::Ordering::Relaxed);
    mc_core::main(PROPS)
}
