//! Values of the reference models, and rendering of Dyon variables into the same canonical text.
use dyon::{Runtime, Variable};
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f64), Bool(bool), Str(String), Vec4([f32; 4]), Mat4([[f32; 4]; 4]),
    Arr(Vec<Val>), Obj(BTreeMap<String, Val>), Link(Vec<Val>),
    Opt(Option<Box<Val>>), Ok(Box<Val>), Err(Box<Val>), Other(String),
    /// a number or boolean with its secret
    Sec(Box<Val>, Vec<Val>),
}
impl Val {
    pub fn render(&self) -> String { let mut s = String::new(); rv(self, &mut s); s }
    pub fn some(v: Val) -> Val { Val::Opt(Some(Box::new(v))) }
    pub fn none() -> Val { Val::Opt(None) }
    pub fn ok(v: Val) -> Val { Val::Ok(Box::new(v)) }
    pub fn str(s: &str) -> Val { Val::Str(s.into()) }
    pub fn num(&self) -> Option<f64> { if let Val::Num(x) = self { Some(*x) } else { None } }
    pub fn arr(&self) -> Option<&[Val]> { if let Val::Arr(x) = self { Some(x) } else { None } }
    pub fn as_str(&self) -> Option<&str> { if let Val::Str(x) = self { Some(x) } else { None } }
}
fn rnum(x: f64, s: &mut String) { if x.is_nan() { s.push_str("NaN") } else { let _ = write!(s, "{}", x); } }
fn rv(v: &Val, s: &mut String) {
    let seq = |o: &str, c: &str, xs: &[Val], s: &mut String| { s.push_str(o); for (i, x) in xs.iter().enumerate() { if i > 0 { s.push(','); } rv(x, s); } s.push_str(c); };
    match v {
        Val::Num(x) => rnum(*x, s),
        Val::Bool(b) => { let _ = write!(s, "{}", b); }
        Val::Str(x) => { let _ = write!(s, "{:?}", x); }
        Val::Vec4(x) => { let _ = write!(s, "v{:?}", x); }
        Val::Mat4(x) => { let _ = write!(s, "m{:?}", x); }
        Val::Arr(x) => seq("[", "]", x, s),
        Val::Link(x) => seq("link{", "}", x, s),
        Val::Obj(m) => { s.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(k); s.push(':'); rv(x, s); } s.push('}'); }
        Val::Opt(None) => s.push_str("none()"),
        Val::Opt(Some(x)) => { s.push_str("some("); rv(x, s); s.push(')'); }
        Val::Ok(x) => { s.push_str("ok("); rv(x, s); s.push(')'); }
        Val::Err(x) => { s.push_str("err("); rv(x, s); s.push(')'); }
        Val::Other(x) => s.push_str(x),
        Val::Sec(x, y) => { rv(x, s); seq("<", ">", y, s); }
    }
}
/// Whether secrets are made visible.
pub static mut SECRETS: bool = false;
/// Converts a Dyon variable, following references through `stack`. Anything that should not occur
/// (dangling reference, return marker, unsafe reference) is made visible in the text.
pub fn from_var(v: &Variable, stack: &[Variable], depth: u32) -> Val {
    if depth > 60 { return Val::Other("CYCLE".into()); }
    let f = |x: &Variable| from_var(x, stack, depth + 1);
    match v {
        Variable::Ref(i) => match stack.get(*i) { None => Val::Other(format!("DANGLING")), Some(Variable::Ref(_)) if depth > 50 => Val::Other("CYCLE".into()), Some(x) => f(x) },
        Variable::Return => Val::Other("RETURN".into()),
        Variable::Bool(b, Some(y)) if unsafe { SECRETS } => Val::Sec(Box::new(Val::Bool(*b)), y.iter().map(f).collect()),
        Variable::F64(x, Some(y)) if unsafe { SECRETS } => Val::Sec(Box::new(Val::Num(*x)), y.iter().map(f).collect()),
        Variable::Bool(b, _) => Val::Bool(*b),
        Variable::F64(x, _) => Val::Num(*x),
        Variable::Vec4(x) => Val::Vec4(*x),
        Variable::Mat4(x) => Val::Mat4(**x),
        Variable::Str(s) => Val::Str(s.to_string()),
        Variable::Array(a) => Val::Arr(a.iter().map(f).collect()),
        Variable::Object(o) => Val::Obj(o.iter().map(|(k, x)| (k.to_string(), f(x))).collect()),
        Variable::Link(l) => { let mut r = vec![]; let mut l = (**l).clone(); while let Some(h) = l.head() { r.push(f(&h)); l = l.tail(); if r.len() > 5000 { break; } } Val::Link(r) }
        Variable::UnsafeRef(_) => Val::Other("UNSAFEREF".into()),
        Variable::RustObject(_) => Val::Other("rust_object".into()),
        Variable::Option(None) => Val::Opt(None),
        Variable::Option(Some(x)) => Val::Opt(Some(Box::new(f(x)))),
        Variable::Result(Ok(x)) => Val::Ok(Box::new(f(x))),
        Variable::Result(Err(e)) => Val::Err(Box::new(f(&e.message))),
        Variable::Thread(_) => Val::Other("thread".into()),
        Variable::Closure(..) => Val::Other("closure".into()),
        Variable::In(_) => Val::Other("in".into()),
    }
}
pub fn of(rt: &Runtime, v: &Variable) -> Val { from_var(v, &rt.stack, 0) }
/// True if a value that must be self-contained has references in it.
pub fn has_ref(v: &Variable) -> bool {
    match v {
        Variable::Ref(_) | Variable::Return | Variable::UnsafeRef(_) => true,
        Variable::Array(a) => a.iter().any(has_ref),
        Variable::Object(o) => o.values().any(has_ref),
        Variable::Option(Some(x)) => has_ref(x),
        Variable::Result(Ok(x)) => has_ref(x),
        Variable::Result(Err(e)) => has_ref(&e.message),
        _ => false,
    }
}
