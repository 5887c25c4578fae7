//! Generated programs against the reference model: threads (C01), isolation (C02), modules (C08), `try` (C09), host calls (C10), memory (C15).
use crate::engine::{count, Plan, Probe};
use crate::prog::{self, Arg, Ctl, Fun, Key, Model, E, MV, S};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg, Shm};
use crate::val::Val;
use crate::{alloc, host, lit};
use std::cell::OnceCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fl { Join, Iso, Mods, Try, Host, Mem }
#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Num, ArrN, ObjN, Any, Res, ResN, Opt, Thr, Thrs, Clos, Mod, Bool, Str, Link, Sec, Vec4, Nest, OptA }
#[derive(Clone, Debug)]
struct Var { n: String, t: T, w: bool } // w: may be changed
#[derive(Clone, Debug, PartialEq)]
enum Kind { Num, Any, Void, Res, Thread, Lazy, Cur, Bump, Clos, Rec }
#[derive(Clone, Debug)]
struct Sig { name: String, kind: Kind, params: Vec<(T, bool)> }
struct Cx { vars: Vec<Var>, sigs: Vec<Sig>, ret: Kind, loops: Vec<String>, thread_ids: bool, site: u64, depth: u32, curs: bool, modv: Option<(String, Vec<Sig>)>, watch: Option<Vec<String>>, boom: bool, budget: i32 }

static mut UNIQ: u32 = 0;
fn uniq(p: &str) -> String { unsafe { UNIQ += 1; format!("{p}{}", UNIQ) } }
fn ty(t: T) -> &'static str { match t { T::Num => "f64", T::ArrN => "[]", T::ObjN => "{}", T::Any => "any", T::Res | T::ResN => "res[any]", T::Opt => "opt[any]", T::Clos => "\\(f64) -> f64", T::Mod => "any", T::Bool => "bool", T::Str => "str", T::Link => "link", T::Thr | T::Thrs | T::Sec | T::OptA => "any", T::Vec4 => "vec4", T::Nest => "[]" } }

struct G { fl: Fl, watch: bool }
fn wnames() -> Vec<String> { vec!["wat".into()] }
impl G {
    fn pick<'a>(r: &mut Rng, c: &'a Cx, f: impl Fn(&Var) -> bool) -> Option<&'a Var> { let v: Vec<&Var> = c.vars.iter().filter(|x| f(x)).collect(); if v.is_empty() { None } else { let k = r.below(v.len().min(6)); Some(v[v.len() - 1 - k]) } }
    fn num(&self, r: &mut Rng, c: &Cx, d: u32) -> E {
        if d == 0 { return match r.below(3) { 0 | 1 => match Self::pick(r, c, |v| v.t == T::Num) { Some(v) => E::V(v.n.clone()), None => E::Num(r.below(20) as f64) }, _ => E::Num(r.below(20) as f64) }; }
        match r.weighted(&[6, 6, 5, 4, 3, 3, if self.fl == Fl::Try || self.fl == Fl::Host { 2 } else { 1 }, 3, 2, 1, 2, 1]) {
            0 => E::Num(r.below(50) as f64),
            1 => self.num(r, c, 0),
            2 => E::Bin(*r.pick(&["+", "-", "+", "*"]), Box::new(self.num(r, c, d - 1)), Box::new(self.num(r, c, 0))),
            3 => match Self::pick(r, c, |v| v.t == T::ArrN) { Some(v) => E::Idx(v.n.clone(), vec![Key::I(E::Num(0.0))]), None => E::Num(1.0) },
            4 => match Self::pick(r, c, |v| v.t == T::ObjN) { Some(v) => E::Idx(v.n.clone(), vec![Key::F((*r.pick(&["x", "y"])).into())]), None => E::Num(2.0) },
            5 => match Self::pick(r, c, |v| v.t == T::ArrN) { Some(v) => E::Fn1("len", Box::new(E::V(v.n.clone()))), None => E::Num(4.0) },
            6 => E::FaultNum(Box::new(self.num(r, c, 0))),
            7 => match self.call(r, c, |k| *k == Kind::Num, d) { Some(e) => e, None => E::Num(5.0) },
            8 => { let v = uniq("i"); let k = *r.pick(&["sum", "prod", "min", "max"]); let b = E::Bin("+", Box::new(E::V(v.clone())), Box::new(self.num(r, c, 0))); E::Loop(k, v, Box::new(E::Num(r.range(1, 3) as f64)), Box::new(b)) }
            11 => match Self::pick(r, c, |v| matches!(v.t, T::Vec4 | T::Nest)) { Some(v) if v.t == T::Vec4 => E::Fn1(*r.pick(&["x", "y", "z", "w"]), Box::new(E::V(v.n.clone()))), Some(v) => E::Idx(v.n.clone(), Self::nest_path(r)), None => E::Num(8.0) },
            9 => match Self::pick(r, c, |v| v.t == T::ResN) { Some(v) => E::UnwrapOr(Box::new(E::V(v.n.clone())), Box::new(E::Num(0.0))), None => E::Num(6.0) },
            _ => match Self::pick(r, c, |v| v.t == T::Clos) { Some(v) => E::CallClos(v.n.clone(), Box::new(self.num(r, c, 0))), None => E::Num(7.0) },
        }
    }
    /// Paths to numbers in a value of type Nest: [[n, n], {x: n, y: [n]}]
    fn nest_path(r: &mut Rng) -> Vec<Key> {
        let i = |x: f64| Key::I(E::Num(x)); let f = |x: &str| Key::F(x.into());
        match r.below(5) { 0 => vec![i(0.0), i(0.0)], 1 => vec![i(0.0), i(1.0)], 2 | 3 => vec![i(1.0), f("x")], _ => vec![i(1.0), f("y"), i(if r.chance(1, 8) { 9.0 } else { 0.0 })] }
    }
    fn nest(&self, r: &mut Rng, c: &Cx) -> E {
        let n = |r: &mut Rng| E::Bin("+", Box::new(self.num(r, c, 0)), Box::new(E::Num(1.0)));
        E::Arr(vec![E::Arr(vec![n(r), n(r)]), E::Obj(vec![("x".into(), n(r)), ("y".into(), E::Arr(vec![n(r)]))])])
    }
    fn boolean(&self, r: &mut Rng, c: &Cx, d: u32) -> E {
        match r.weighted(&[6, if d > 0 { 3 } else { 0 }, if d > 0 { 2 } else { 0 }, 2, if d > 0 { 2 } else { 0 }, 1, 4]) {
            0 => E::Bin(*r.pick(&["<", ">", "==", "!="]), Box::new(self.num(r, c, d.min(1))), Box::new(self.num(r, c, 0))),
            1 => E::Bin(*r.pick(&["&&", "||"]), Box::new(self.boolean(r, c, d - 1)), Box::new(self.boolean(r, c, d - 1))),
            2 => match self.call(r, c, |k| *k == Kind::Lazy, d) { Some(e) => e, None => E::Bool(true) },
            3 => match Self::pick(r, c, |v| matches!(v.t, T::Res | T::ResN)) { Some(v) => E::Fn1(*r.pick(&["is_ok", "is_err"]), Box::new(E::V(v.n.clone()))), None => E::Bool(r.chance(1, 2)) },
            4 => { let v = uniq("i"); E::Loop(*r.pick(&["any", "all"]), v.clone(), Box::new(E::Num(r.range(1, 3) as f64)), Box::new(E::Bin("<", Box::new(E::V(v)), Box::new(self.num(r, c, 0))))) }
            5 => E::Bool(r.chance(1, 2)),
            _ => match Self::pick(r, c, |v| matches!(v.t, T::Bool | T::Link | T::Str)) { Some(v) if v.t == T::Link => E::Fn1("is_empty", Box::new(E::V(v.n.clone()))), Some(v) if v.t == T::Str => E::Bin(*r.pick(&["==", "!="]), Box::new(E::V(v.n.clone())), Box::new(E::Str("s1".into()))), Some(v) => E::V(v.n.clone()), None => E::Bool(r.chance(1, 2)) },
        }
    }
    fn text(&self, r: &mut Rng, c: &Cx, d: u32) -> E {
        match r.below(if d > 0 { 5 } else { 2 }) {
            0 => E::Str(format!("s{}", r.below(3))),
            1 => match Self::pick(r, c, |v| v.t == T::Str) { Some(v) => E::V(v.n.clone()), None => E::Str("s1".into()) },
            2 => E::Bin("+", Box::new(self.text(r, c, d - 1)), Box::new(self.text(r, c, 0))),
            3 => E::Fn1("str", Box::new(self.num(r, c, 0))),
            _ => match Self::pick(r, c, |v| v.t == T::Link) { Some(v) => E::Fn1("str", Box::new(E::V(v.n.clone()))), None => E::Str("s2".into()) },
        }
    }
    fn link(&self, r: &mut Rng, c: &Cx) -> E {
        let var = Self::pick(r, c, |v| v.t == T::Link).map(|v| v.n.clone());
        match (r.below(8), var) {
            (0, Some(v)) | (1, Some(v)) => E::Fn1(*r.pick(&["tail", "neck"]), Box::new(E::V(v))),
            (2, Some(v)) => { let k = E::Link((0..r.range(0, 3)).map(|_| self.item(r, c)).collect()); if r.chance(1, 2) { E::Bin("+", Box::new(E::V(v)), Box::new(k)) } else { E::Bin("+", Box::new(k), Box::new(E::V(v))) } }
            (3, Some(v)) => { let mut a = vec![E::V(v)]; if r.chance(1, 2) { a.push(self.item(r, c)); } if r.chance(1, 2) { a.insert(0, self.item(r, c)); } E::Link(a) }
            (4, _) | (5, _) => { // blocks of a link hold 124 items
                let v = uniq("i"); let n = *r.pick(&[1, 3, 40, 61, 62, 63, 123, 124, 125, 130]); let mut a = vec![if r.chance(1, 2) { E::Fn1("str", Box::new(E::V(v.clone()))) } else { E::Str("it".into()) }]; if r.chance(1, 3) { a.push(self.item(r, c)); } E::LinkFor(v, Box::new(E::Num(n as f64)), a)
            }
            _ => E::Link((0..r.range(0, 4)).map(|_| self.item(r, c)).collect()),
        }
    }
    fn item(&self, r: &mut Rng, c: &Cx) -> E { match r.below(4) { 0 => E::Num(r.below(9) as f64), 1 => E::Bool(r.chance(1, 2)), 2 => E::Str("x".into()), _ => match Self::pick(r, c, |v| matches!(v.t, T::Str | T::Num | T::Bool)) { Some(v) => E::V(v.n.clone()), None => E::Str("yy".into()) } } }
    /// A value of any type; may contain references to variables in scope.
    fn any(&self, r: &mut Rng, c: &Cx, d: u32) -> E {
        match r.weighted(&[3, 6, if d > 0 { 4 } else { 0 }, if d > 0 { 3 } else { 0 }, 3, if d > 0 { 3 } else { 0 }, 2, 2, if d > 1 { 3 } else { 0 }]) {
            0 => self.num(r, c, d.min(1)),
            1 => match Self::pick(r, c, |v| matches!(v.t, T::Any | T::ArrN | T::ObjN | T::Res | T::Opt | T::ResN | T::Str | T::Clos | T::Link | T::Bool | T::Sec | T::Vec4 | T::Nest | T::OptA)) { Some(v) => E::V(v.n.clone()), None => E::Str("q".into()) },
            2 => E::Arr((0..r.range(0, 3)).map(|_| self.any(r, c, d - 1)).collect()),
            3 => { let mut o: Vec<(String, E)> = vec![]; for k in ["p", "q", "r"] { if r.chance(1, 2) { o.push((k.into(), self.any(r, c, d - 1))); } } E::Obj(o) }
            4 => { let (t, v) = lit::any(r, 1); E::Lit(t, v) }
            5 if r.chance(1, 4) => { let x = match Self::pick(r, c, |v| matches!(v.t, T::Opt | T::Res | T::ResN)) { Some(v) if r.chance(2, 3) => E::V(v.n.clone()), _ => E::None }; E::UnwrapOr(Box::new(x), Box::new(self.any(r, c, d - 1))) }
            5 => E::Fn1(*r.pick(&["some", "ok", "err", "clone"]), Box::new(self.any(r, c, d - 1))),
            6 => match self.call(r, c, |k| matches!(k, Kind::Any | Kind::Res), d) { Some(e) => e, None => E::None },
            7 => E::None,
            _ => { // a variable several levels down
                let mut e = match Self::pick(r, c, |v| v.w && matches!(v.t, T::ArrN | T::ObjN | T::Num | T::Str | T::Nest)) { Some(v) => E::V(v.n.clone()), None => E::Str("deep".into()) };
                for _ in 0..r.range(1, 5) { e = match r.below(8) { 0..=4 => E::Arr(vec![e]), 5 => E::Obj(vec![("p".into(), e)]), 6 => E::Arr(vec![E::Num(1.0), e]), _ => E::Fn1(*r.pick(&["some", "ok", "err"]), Box::new(e)) }; }
                e
            }
        }
    }
    fn of(&self, r: &mut Rng, c: &Cx, t: T, d: u32) -> E {
        match t {
            T::Num => self.num(r, c, d),
            T::ArrN => match Self::pick(r, c, |v| v.t == T::ArrN) { Some(v) if r.chance(3, 4) => E::V(v.n.clone()), _ => E::Arr((0..r.range(1, 3)).map(|_| self.num(r, c, 0)).collect()) },
            T::ObjN => match Self::pick(r, c, |v| v.t == T::ObjN) { Some(v) if r.chance(3, 4) => E::V(v.n.clone()), _ => E::Obj(vec![("x".into(), self.num(r, c, 0)), ("y".into(), self.num(r, c, 0))]) },
            T::Bool => self.boolean(r, c, d.min(1)), T::Str => self.text(r, c, d.min(1)), T::Link => match Self::pick(r, c, |v| v.t == T::Link) { Some(v) if r.chance(2, 3) => E::V(v.n.clone()), _ => self.link(r, c) },
            T::Clos => match Self::pick(r, c, |v| v.t == T::Clos) { Some(v) => E::V(v.n.clone()), None => self.closure(r, c) },
            T::Sec => match Self::pick(r, c, |v| v.t == T::Sec) { Some(v) => E::V(v.n.clone()), None => Self::sec(r) }, T::Vec4 => match Self::pick(r, c, |v| v.t == T::Vec4) { Some(v) => E::V(v.n.clone()), None => E::Vec4((0..4).map(|_| E::Num(r.below(9) as f64)).collect()) },
            T::Nest => match Self::pick(r, c, |v| v.t == T::Nest) { Some(v) => E::V(v.n.clone()), None => self.nest(r, c) },
            T::Mod => E::V(c.modv.as_ref().unwrap().0.clone()),
            T::OptA => match Self::pick(r, c, |v| v.t == T::OptA) { Some(v) => E::V(v.n.clone()), None => self.opta(r, c) },
            T::Res => if r.chance(1, 3) { E::Fn1("err", Box::new(E::Str("e".into()))) } else { E::Fn1("ok", Box::new(self.any(r, c, 1))) },
            _ => self.any(r, c, d),
        }
    }
    /// An array in an option or result: copies of it share the array until one of them changes.
    fn opta(&self, r: &mut Rng, c: &Cx) -> E { let mut e = E::Fn1(*r.pick(&["some", "ok"]), Box::new(self.of(r, c, T::ArrN, 0))); if r.chance(1, 6) { e = E::Fn1("clone", Box::new(e)); } e }
    fn sec(r: &mut Rng) -> E { let k = r.range(0, 4) as u32; match r.below(4) { 0 => E::Sec("any", k + 1 + r.below(3) as u32, k), 1 => E::Sec("all", k + 1 + r.below(3) as u32, k), 2 => E::Sec("min", r.range(1, 4) as u32, 9), _ => E::Sec("max", r.range(1, 4) as u32, k) } }
    fn closure(&self, r: &mut Rng, c: &Cx) -> E {
        let p = uniq("k");
        let g = match r.below(3) { 0 => match Self::pick(r, c, |v| v.t == T::ArrN) { Some(v) => E::Fn1("len", Box::new(E::Grab(Box::new(E::V(v.n.clone()))))), None => E::Num(2.0) }, 1 => match Self::pick(r, c, |v| v.t == T::Num) { Some(v) => E::Grab(Box::new(E::V(v.n.clone()))), None => E::Num(3.0) }, _ => E::Grab(Box::new(E::Bin(*r.pick(&["+", "*"]), Box::new(self.num(r, c, 0)), Box::new(self.num(r, c, 0))))) }; // nothing deeper: the parser backtracks exponentially
        let mut b = E::Bin(*r.pick(&["+", "*", "-"]), Box::new(E::V(p.clone())), Box::new(g));
        if r.chance(1, 5) { b = E::FaultNum(Box::new(b)); }
        // closures call functions of the module they were written in
        let fs: Vec<&Sig> = c.sigs.iter().filter(|s| s.kind == Kind::Num && s.params.iter().all(|p| p.0 == T::Num && !p.1)).collect();
        if !fs.is_empty() && r.chance(1, 2) { let s = *r.pick(&fs); let a = (0..s.params.len()).map(|i| Arg { m: false, e: if i == 0 { E::V(p.clone()) } else { E::Num(i as f64) } }).collect(); b = E::Bin("+", Box::new(E::Call(s.name.clone(), a)), Box::new(b)); }
        E::Clos(p, Box::new(b))
    }
    fn call(&self, r: &mut Rng, c: &Cx, f: impl Fn(&Kind) -> bool, d: u32) -> Option<E> {
        if d == 0 { return None; }
        let v: Vec<&Sig> = c.sigs.iter().filter(|s| f(&s.kind)).collect(); if v.is_empty() { return None; }
        let s = (*r.pick(&v)).clone();
        let a = self.args(r, c, &s, d - 1)?;
        Some(E::Call(s.name, a))
    }
    fn args(&self, r: &mut Rng, c: &Cx, s: &Sig, d: u32) -> Option<Vec<Arg>> {
        let mut a = vec![]; let mut used: Vec<String> = vec![];
        for (t, m) in &s.params {
            if *m { let v = Self::pick(r, c, |v| v.t == *t && v.w && !used.contains(&v.n))?; used.push(v.n.clone()); a.push(Arg { m: true, e: E::V(v.n.clone()) }); }
            else {
                let e = self.of(r, c, *t, d);
                a.push(Arg { m: false, e });
            }
        }
        // A variable passed as mutable must not occur in another argument.
        for u in &used { for x in &a { if !x.m && mentions(&x.e, u) { return None; } } }
        Some(a)
    }
    fn decl(&self, c: &mut Cx, o: &mut Vec<S>, p: &str, t: T, w: bool, e: E) -> String { let n = uniq(p); o.push(S::Let(n.clone(), e)); c.vars.push(Var { n: n.clone(), t, w }); n }
    fn ev(&self, r: &mut Rng, c: &Cx, o: &mut Vec<S>) { let tag = uniq("e"); let mut v = vec![E::Str(tag)]; for _ in 0..r.range(1, 3) { let e = match r.below(3) { 0 => match Self::pick(r, c, |v| !matches!(v.t, T::Thr | T::Thrs | T::Mod)) { Some(v) => E::V(v.n.clone()), None => E::Num(0.0) }, 1 => self.any(r, c, 1), _ => self.num(r, c, 1) }; v.push(e); } o.push(S::Ev(v)); }
    fn stmts(&self, r: &mut Rng, c: &mut Cx, n: usize) -> Vec<S> { let mut o = vec![]; for _ in 0..n { self.stmt(r, c, &mut o); } o }
    fn nested(&self, r: &mut Rng, c: &mut Cx, n: usize) -> Vec<S> { let k = c.vars.len(); c.depth += 1; let cu = c.curs; let mut b = self.stmts(r, c, n); if b.is_empty() { b.push(S::Raw("yieldp()".into())); } c.depth -= 1; c.curs = cu; c.vars.truncate(k); b }
    fn id(&self, c: &mut Cx, span: u64) -> Option<E> { if !c.thread_ids || c.site + span > 31 { return None; } let k = c.site; c.site += span; Some(E::Bin("+", Box::new(E::Bin("*", Box::new(E::V("id".into())), Box::new(E::Num(32.0)))), Box::new(E::Num(k as f64)))) }
    fn stmt(&self, r: &mut Rng, c: &mut Cx, o: &mut Vec<S>) {
        c.budget -= 1; if c.budget < 0 { return; }
        let deep = c.depth >= 2;
        let go = if c.thread_ids && !deep && c.loops.is_empty() { match self.fl { Fl::Join => 16, Fl::Iso => 12, Fl::Mods => 6, Fl::Mem => 8, _ => 2 } } else { 0 };
        let tr = match self.fl { Fl::Try => 14, Fl::Host => 10, _ => 4 };
        let md = if c.modv.is_some() { 14 } else { 0 };
        let cu = match self.fl { Fl::Try | Fl::Host => 7, _ => 3 };
        let w = [6, 5, 3, 8, 8, 6, 12, if deep { 0 } else { 4 }, if deep { 0 } else { 4 }, 6, tr, 2, go, 2, cu, 4, md, 4, 3, if c.ret == Kind::Res { 5 } else { 0 }, 3, 3, 3, 5, 3, 2, 2, if deep { 0 } else { 3 }, if self.fl == Fl::Iso { 6 } else { 2 }, if c.watch.is_some() { 10 } else { 0 }];
        match r.weighted(&w) {
            0 => { let e = if r.chance(1, 6) { { let p = |e| Box::new(E::Bin("+", Box::new(e), Box::new(E::Num(1.0)))); E::If(Box::new(self.boolean(r, c, 0)), p(self.num(r, c, 1)), p(self.num(r, c, 1))) } } else { self.num(r, c, 2) }; self.decl(c, o, "n", T::Num, true, e); }
            1 => { let e = E::Arr((0..r.range(1, 4)).map(|_| self.num(r, c, 1)).collect()); self.decl(c, o, "a", T::ArrN, true, e); }
            2 => { let e = E::Obj(vec![("x".into(), self.num(r, c, 1)), ("y".into(), self.num(r, c, 0))]); self.decl(c, o, "o", T::ObjN, true, e); }
            3 => { let e = self.any(r, c, 2); self.decl(c, o, "v", T::Any, false, e); }
            4 => if let Some(v) = Self::pick(r, c, |v| v.w && matches!(v.t, T::Num | T::ArrN | T::ObjN)).cloned() {
                let (ks, e) = match v.t { T::Num => (vec![], self.num(r, c, 1)), T::ArrN => { let i = if r.chance(1, 12) { 50.0 } else { 0.0 }; (vec![Key::I(E::Num(i))], self.num(r, c, 1)) } _ => (vec![Key::F((*r.pick(&["x", "y"])).into())], self.num(r, c, 1)) };
                let e = E::Bin("+", Box::new(e), Box::new(E::Num(1.0))); // never a bare reference: the target would not outlive it
                o.push(S::Set(v.n, ks, *r.pick(&["=", "+=", "-="]), e));
            },
            5 => if let Some(v) = Self::pick(r, c, |v| v.w && v.t == T::ArrN).cloned() { let e = self.num(r, c, 1); o.push(S::Push(v.n, e)); },
            6 => self.ev(r, c, o),
            7 => { let cnd = self.boolean(r, c, 1); let n1 = r.range(1, 3); let a = self.nested(r, c, n1); let n2 = r.below(3); let b = if n2 > 0 { self.nested(r, c, n2) } else { vec![] }; o.push(S::If(cnd, a, b)); }
            8 => { // loops with break and continue, plain or to an outer label
                let lab = if r.chance(1, 2) { Some(uniq("l")) } else { None };
                let v = uniq("i"); let n = r.range(1, 3) as f64;
                if let Some(l) = &lab { c.loops.push(l.clone()); } else { c.loops.push(String::new()); }
                let k = c.vars.len(); c.vars.push(Var { n: v.clone(), t: T::Num, w: false });
                let nn = r.range(1, 3); let mut b = self.nested(r, c, nn);
                if r.chance(1, 2) {
                    let to = { let named: Vec<&String> = c.loops.iter().filter(|x| !x.is_empty()).collect(); if !named.is_empty() && r.chance(1, 2) { Some((*r.pick(&named)).clone()) } else { None } };
                    let s = if r.chance(1, 2) { S::Break(to) } else { S::Cont(to) };
                    let cnd = self.boolean(r, c, 1);
                    let at = r.below(b.len() + 1); b.insert(at.min(1), S::If(cnd, vec![s], vec![]));
                }
                c.vars.truncate(k); c.loops.pop();
                if r.chance(1, 5) { let w = uniq("w"); o.push(S::Let(w.clone(), E::Num(0.0))); let mut lb = vec![S::Set(w.clone(), vec![], "+=", E::Num(1.0)), S::If(E::Bin(">", Box::new(E::V(w)), Box::new(E::Num(n))), vec![S::Break(None)], vec![])]; lb.extend(rename(b, &v)); o.push(S::Loop(lab, lb)); }
                else { o.push(S::For(lab, v, E::Num(n), b)); }
            }
            9 => { // calls for effect: mutable arguments, currents
                let k = r.below(5);
                let e = if k == 0 { self.call(r, c, |k| *k == Kind::Bump, 2) } else { self.call(r, c, |k| *k == Kind::Void, 2) };
                if let Some(e) = e { o.push(S::Ex(e)); }
            }
            10 => {
                let (e, t) = match r.below(7) {
                    0 => (self.any(r, c, 2), T::Res),
                    1 | 2 => (match self.call(r, c, |k| *k == Kind::Num, 3) { Some(e) => e, None => self.num(r, c, 2) }, T::ResN),
                    3 => (match self.call(r, c, |k| matches!(k, Kind::Any | Kind::Res), 3) { Some(e) => e, None => E::FaultNum(Box::new(E::Num(1.0))) }, T::Res),
                    4 => (match Self::pick(r, c, |v| v.t == T::ArrN) { Some(v) => E::Idx(v.n.clone(), vec![Key::I(E::Num(if r.chance(1, 2) { 40.0 } else { 0.0 }))]), None => E::Fn1("unwrap", Box::new(E::None)) }, T::ResN),
                    5 => (match self.call(r, c, |k| *k == Kind::Cur, 2) { Some(e) => e, None => E::FaultNum(Box::new(E::Num(2.0))) }, T::ResN),
                    _ => (match Self::pick(r, c, |v| matches!(v.t, T::Opt | T::Res)) { Some(v) => E::Fn1("unwrap", Box::new(E::V(v.n.clone()))), None => E::FaultNum(Box::new(self.num(r, c, 1))) }, T::Res),
                };
                let n = self.decl(c, o, "r", t, false, E::Try(Box::new(e)));
                if r.chance(2, 3) { o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n.clone())])); }
                if c.curs && r.chance(1, 2) { if let Some(e) = self.call(r, c, |k| *k == Kind::Cur, 1) { o.push(S::Ev(vec![E::Str(uniq("e")), e])); } }
                if r.chance(1, 4) { o.push(S::If(E::Fn1("is_err", Box::new(E::V(n))), { let n = r.range(1, 2); self.nested(r, c, n) }, vec![])); }
            }
            11 => o.push(S::Fault),
            12 => self.threads(r, c, o),
            13 => if c.ret != Kind::Thread || c.depth > 0 { let cnd = self.boolean(r, c, 1); let e = self.ret(r, c); o.push(S::If(cnd, vec![S::Ret(e)], vec![])); },
            14 if !deep && r.chance(1, 3) => { // current objects of a loop body that is left in different ways
                if !c.curs || r.chance(1, 2) { let e = self.num(r, c, 1); o.push(S::Cur("cur".into(), e)); c.curs = true; }
                let v = uniq("i"); let k = c.vars.len(); c.vars.push(Var { n: v.clone(), t: T::Num, w: false });
                let mut b = vec![S::Cur("cur".into(), E::Bin("+", Box::new(E::V(v.clone())), Box::new(E::Num(700.0))))];
                if r.chance(1, 2) { if let Some(e) = self.call(r, c, |k| *k == Kind::Bump, 1) { b.push(S::Ex(e)); } }
                let cnd = if r.chance(1, 2) { E::Bin(">", Box::new(E::V(v.clone())), Box::new(E::Num(0.0))) } else { self.boolean(r, c, 0) };
                b.push(S::If(cnd, vec![if r.chance(1, 2) { S::Break(None) } else { S::Cont(None) }], vec![]));
                if r.chance(1, 2) { if let Some(e) = self.call(r, c, |k| *k == Kind::Cur, 1) { b.push(S::Ev(vec![E::Str(uniq("e")), e])); } }
                c.vars.truncate(k);
                o.push(S::For(None, v, E::Num(r.range(1, 3) as f64), b));
                if let Some(e) = self.call(r, c, |k| *k == Kind::Cur, 1) { o.push(S::Ev(vec![E::Str(uniq("e")), e])); }
            }
            14 => if c.curs && r.chance(1, 2) { if let Some(e) = self.call(r, c, |k| *k == Kind::Bump, 1) { o.push(S::Ex(e)); } } else { let e = self.num(r, c, 1); if r.chance(1, 3) { o.push(S::Cur("cu2".into(), e)); } else { o.push(S::Cur("cur".into(), e)); c.curs = true; } },
            15 if r.chance(1, 4) => if let Some(e) = self.call(r, c, |k| *k == Kind::Clos, 2) { let n = self.decl(c, o, "f", T::Clos, false, e); if r.chance(1, 2) { let q = self.decl(c, o, "r", T::ResN, false, E::Try(Box::new(E::CallClos(n, Box::new(E::Num(3.0)))))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(q)])); } },
            15 => if r.chance(1, 2) { let e = self.closure(r, c); self.decl(c, o, "f", T::Clos, false, e); } else { let e = E::Fn1(*r.pick(&["some", "some", "ok"]), Box::new(self.any(r, c, 1))); let t = if let E::Fn1("some", _) = e { T::Opt } else { T::Res }; self.decl(c, o, "s", t, false, e); },
            16 => if let Some((mv, sigs)) = c.modv.clone() {
                let s = r.pick(&sigs).clone();
                if s.kind == Kind::Thread { return; }
                if let Some(mut a) = self.args(r, c, &s, 2) {
                    if a.iter().any(|x| x.m) { return; }
                    if s.kind == Kind::Rec { a[0].e = E::Num(r.below(3) as f64); }
                    let es: Vec<E> = a.into_iter().map(|x| x.e).collect();
                    let mut es = es; let few = !es.is_empty() && r.chance(1, 20); if few { es.pop(); }
                    if s.kind == Kind::Void { let f = if r.chance(1, 12) { "nofn".to_string() } else { s.name.clone() }; o.push(S::CallMod(mv, f, es)); }
                    else if s.kind == Kind::Clos {
                        let n = self.decl(c, o, "m", T::Any, false, E::CallRet(mv, s.name.clone(), es));
                        let x = self.num(r, c, 0);
                        let q = self.decl(c, o, "r", T::Res, false, E::Try(Box::new(E::CallClos(n, Box::new(x))))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(q)]));
                    }
                    else {
                        let f = if r.chance(1, 20) { "nofn".to_string() } else { s.name.clone() };
                        let e = E::CallRet(mv, f.clone(), es);
                        if few || f == "nofn" || r.chance(1, 2) { let n = self.decl(c, o, "r", T::Res, false, E::Try(Box::new(e))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); }
                        else { let n = self.decl(c, o, "m", T::Any, false, e); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); }
                    }
                }
            },
            17 => o.push(S::Raw((*r.pick(&["yieldp()", "yieldp()", "sleep(0.0001)", "sleep(0)"])).into())),
            18 => if let Some(v) = Self::pick(r, c, |v| v.t == T::Any).cloned() { let n = uniq("v"); o.push(S::Let(n.clone(), E::V(v.n))); c.vars.push(Var { n, t: T::Any, w: false }); },
            20 => { let e = self.boolean(r, c, 1); let e = if let E::V(_) = e { E::Not(Box::new(e)) } else { e }; self.decl(c, o, "b", T::Bool, false, e); }
            21 => if r.chance(1, 3) { if let Some(v) = Self::pick(r, c, |v| v.w && v.t == T::Str).cloned() { let e = E::Bin("+", Box::new(self.text(r, c, 0)), Box::new(E::Str("+".into()))); o.push(S::Set(v.n, vec![], "+=", e)); } } else { let e = E::Bin("+", Box::new(self.text(r, c, 1)), Box::new(E::Str("'".into()))); self.decl(c, o, "x", T::Str, true, e); },
            22 => { let e = self.link(r, c); let n = self.decl(c, o, "l", T::Link, false, e); if r.chance(1, 3) { let e = E::Fn1(*r.pick(&["head", "tip"]), Box::new(E::V(n))); self.decl(c, o, "s", T::Opt, false, e); } }
            23 => if let Some(v) = Self::pick(r, c, |v| v.w && v.t == T::ArrN).cloned() { self.arr_op(r, c, &v.n, o); },
            24 => if r.chance(1, 2) { let e = self.nest(r, c); self.decl(c, o, "z", T::Nest, true, e); } else if let Some(v) = Self::pick(r, c, |v| v.w && v.t == T::Nest).cloned() { self.nest_op(r, c, &v.n, o); },
            25 => { let e = Self::sec(r); self.decl(c, o, "u", T::Sec, false, e); },
            26 => { let a: Vec<E> = (0..4).map(|_| E::Bin("+", Box::new(self.num(r, c, 0)), Box::new(E::Num(1.0)))).collect(); let e = E::Vec4(a); let e = match Self::pick(r, c, |v| v.t == T::Vec4) { Some(v) if r.chance(1, 2) => E::Bin(*r.pick(&["+", "-"]), Box::new(E::V(v.n.clone())), Box::new(e)), _ => e }; self.decl(c, o, "g", T::Vec4, false, e); },
            27 => { // recursion
                let fs: Vec<Sig> = c.sigs.iter().filter(|s| s.kind == Kind::Rec).cloned().collect();
                if !fs.is_empty() { let s = r.pick(&fs).clone(); if let Some(mut a) = self.args(r, c, &s, 1) { a[0] = Arg { m: false, e: E::Num(r.below(4) as f64) }; let e = E::Call(s.name, a); let (e, t) = if r.chance(2, 3) { (E::Try(Box::new(e)), T::Res) } else { (e, T::Any) }; let n = self.decl(c, o, "r", t, false, e); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); } }
            }
            28 => match Self::pick(r, c, |v| v.t == T::OptA).cloned() {
                Some(v) if r.chance(2, 3) => { let n = self.decl(c, o, "a", T::ArrN, true, E::Fn1("unwrap", Box::new(E::V(v.n.clone())))); for _ in 0..r.range(1, 2) { self.arr_op(r, c, &n, o); } o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n), E::V(v.n)])); }
                Some(v) if r.chance(1, 2) => { // an array that is a default value
                    let w = if r.chance(1, 3) { E::V(v.n) } else { E::None }; let d = self.of(r, c, T::ArrN, 0); let from = if let E::V(x) = &d { Some(x.clone()) } else { None };
                    let n = self.decl(c, o, "a", T::ArrN, true, E::UnwrapOr(Box::new(w), Box::new(d))); self.arr_op(r, c, &n, o); let mut e = vec![E::Str(uniq("e")), E::V(n)]; if let Some(f) = from { e.push(E::V(f)); } o.push(S::Ev(e)); }
                _ => { let e = self.opta(r, c); self.decl(c, o, "w", T::OptA, false, e); }
            },
            29 => self.watch(r, c, o),
            _ => { let e = if r.chance(1, 2) { self.of(r, c, T::Res, 1) } else { match Self::pick(r, c, |v| matches!(v.t, T::Res | T::ResN)) { Some(v) => E::V(v.n.clone()), None => E::Fn1("ok", Box::new(E::Num(1.0))) } }; self.decl(c, o, "q", T::Any, false, E::Q(Box::new(e))); }
        }
    }
    /// A call of a function that is observed by receivers: first what the message should hold, then the call, then changes.
    fn watch(&self, r: &mut Rng, c: &mut Cx, o: &mut Vec<S>) {
        let Some(fs) = c.watch.clone() else { return; };
        if !c.thread_ids { return; }
        let keep = std::mem::take(&mut c.sigs);
        let mut e = None;
        for _ in 0..6 { let x = self.any(r, c, 3); let t = x.src(); if !["fault", "try", "\\", "unwrap"].iter().any(|b| t.contains(b)) { e = Some(x); break; } }
        c.sigs = keep;
        let Some(e) = e else { return; };
        let f = r.pick(&fs).clone();
        let n = uniq("n");
        // (one statement: nothing may come between them)
        o.push(S::If(E::Bool(true), vec![S::Ev(vec![E::Str(format!("sent {f}")), E::V("id".into()), e.clone()]), S::Let(n, E::Call(f, vec![Arg { m: false, e: E::V("id".into()) }, Arg { m: false, e }]))], vec![]));
        for _ in 0..r.range(1, 3) { self.mutate(r, c, o); }
    }
    /// A few variables to work with.
    fn seedvars(&self, r: &mut Rng, c: &mut Cx, o: &mut Vec<S>) {
        for _ in 0..r.range(1, 4) {
            match r.below(7) {
                0 | 1 => { let e = E::Arr((0..r.range(1, 3)).map(|_| self.num(r, c, 0)).collect()); self.decl(c, o, "a", T::ArrN, true, e); }
                2 => { let e = E::Obj(vec![("x".into(), self.num(r, c, 0)), ("y".into(), self.num(r, c, 0))]); self.decl(c, o, "o", T::ObjN, true, e); }
                3 => { let e = self.nest(r, c); self.decl(c, o, "z", T::Nest, true, e); }
                4 => { let e = E::Str(format!("t{}", r.below(9))); self.decl(c, o, "x", T::Str, true, e); }
                5 => { let e = self.any(r, c, 3); self.decl(c, o, "v", T::Any, false, e); }
                _ => { let e = Self::sec(r); self.decl(c, o, "u", T::Sec, false, e); }
            }
        }
    }
    /// All variables in scope, as they are now.
    fn epilogue(&self, c: &Cx, o: &mut Vec<S>) {
        let mut v = vec![E::Str(uniq("e"))];
        for x in c.vars.iter().filter(|v| !matches!(v.t, T::Thr | T::Thrs | T::Mod)).take(12) { v.push(E::V(x.n.clone())); }
        if v.len() > 1 { o.push(S::Ev(v)); }
    }
    fn arr_op(&self, r: &mut Rng, c: &mut Cx, v: &str, o: &mut Vec<S>) {
        let plus = |e: E| E::Bin("+", Box::new(e), Box::new(E::Num(1.0)));
        let len = || E::Fn1("len", Box::new(E::V(v.into())));
        match r.below(7) {
            6 => { let e = E::Pop(v.into()); let (e, t) = if r.chance(1, 2) { (E::Try(Box::new(e)), T::ResN) } else { (e, T::Num) }; let n = self.decl(c, o, "n", t, t == T::Num, e); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); o.push(S::Push(v.into(), E::Num(4.0))); }
            0 | 1 => { let e = plus(self.num(r, c, 0)); let i = match r.below(8) { 0 => E::Num(60.0), 1..=3 => E::Num(0.0), _ => len() }; o.push(S::ArrOp("insert", v.into(), vec![i, e])); }
            2 => o.push(S::ArrOp("reverse", v.into(), vec![])),
            3 => o.push(S::If(E::Bin(">", Box::new(len()), Box::new(E::Num(1.0))), vec![S::ArrOp("swap", v.into(), vec![E::Num(0.0), E::Bin("-", Box::new(len()), Box::new(E::Num(1.0)))])], vec![])),
            4 => { let i = if r.chance(1, 8) { 60.0 } else { 0.0 }; let e = E::Remove(v.into(), Box::new(E::Num(i))); let (e, t) = if r.chance(1, 2) { (E::Try(Box::new(e)), T::ResN) } else { (e, T::Num) }; let n = self.decl(c, o, "n", t, t == T::Num, e); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); if r.chance(2, 3) { o.push(S::Push(v.into(), E::Num(5.0))); } }
            _ => { o.push(S::ArrOp("clear", v.into(), vec![])); o.push(S::Push(v.into(), E::Num(6.0))); }
        }
    }
    fn nest_op(&self, r: &mut Rng, c: &mut Cx, v: &str, o: &mut Vec<S>) {
        let e = E::Bin("+", Box::new(self.num(r, c, 0)), Box::new(E::Num(1.0)));
        if r.chance(1, 5) { o.push(S::Set(v.into(), vec![Key::I(E::Num(1.0)), Key::F("w".into())], ":=", e)); } else { let k = Self::nest_path(r); o.push(S::Set(v.into(), k, *r.pick(&["=", "+=", "-="]), e)); }
    }
    fn ret(&self, r: &mut Rng, c: &Cx) -> Option<E> {
        match c.ret { Kind::Void | Kind::Bump => None, Kind::Num | Kind::Cur => Some(E::Bin("+", Box::new(self.num(r, c, 1)), Box::new(E::Num(1.0)))), Kind::Lazy => Some(match r.below(3) { 0 => E::Bool(r.chance(1, 2)), _ => { let v = Self::pick(r, c, |v| v.t == T::Bool).map_or(E::Bool(true), |v| E::V(v.n.clone())); E::Bin(*r.pick(&["||", "&&"]), Box::new(v), Box::new(self.boolean(r, c, 0))) } }), Kind::Clos => Some(self.closure(r, c)),
            Kind::Res => Some(match r.below(3) { 0 => E::Fn1("err", Box::new(self.any(r, c, 1))), _ => E::Fn1("ok", Box::new(self.any(r, c, 1))) }),
            Kind::Any | Kind::Thread | Kind::Rec => Some(match r.below(7) { 6 => E::UnwrapOr(Box::new(E::None), Box::new(self.any(r, c, 2))), 0 => E::Try(Box::new(self.any(r, c, 1))), 4 if Self::pick(r, c, |v| v.t == T::Bool).is_some() => { let v = Self::pick(r, c, |v| v.t == T::Bool).unwrap().n.clone(); E::Bin(*r.pick(&["||", "&&"]), Box::new(E::V(v)), Box::new(self.boolean(r, c, 0))) } 1 => E::Fn1("some", Box::new(self.any(r, c, 2))), _ => E::Fn1("clone", Box::new(self.any(r, c, 2))) }) }
    }
    fn threads(&self, r: &mut Rng, c: &mut Cx, o: &mut Vec<S>) {
        let ts: Vec<Sig> = c.sigs.iter().filter(|s| s.kind == Kind::Thread).cloned().collect();
        if ts.is_empty() { return; }
        let s = r.pick(&ts).clone();
        match r.below(10) {
            0..=4 => { // start, go on working, join (or not, or twice)
                let Some(a) = self.args(r, c, &s, 2) else { return; };
                let Some(id) = self.id(c, 1) else { return; };
                let mut a = a; a[0] = Arg { m: false, e: id };
                let g = E::Go(s.name.clone(), a);
                let t = if r.chance(1, 6) { uniq("v") } else { uniq("t") };
                o.push(S::Let(t.clone(), if r.chance(1, 8) { E::Try(Box::new(g)) } else { g }));
                let is_try = matches!(o.last(), Some(S::Let(_, E::Try(_))));
                if self.fl == Fl::Iso || r.chance(1, 2) { for _ in 0..r.range(1, 3) { self.mutate(r, c, o); } }
                let k = r.below(3); for _ in 0..k { self.stmt(r, c, o); }
                if is_try { let h = uniq("t"); o.push(S::Let(h.clone(), E::Fn1("unwrap", Box::new(E::V(t))))); return; } // two references: cannot be joined
                match r.below(12) { 0 => {} 1 => { for _ in 0..2 { let n = self.decl(c, o, "j", T::Res, false, E::Join(Box::new(E::V(t.clone())))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); } } _ => { let n = self.decl(c, o, "j", T::Res, false, E::Join(Box::new(E::V(t)))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); } }
                for _ in 0..r.below(2) { self.mutate(r, c, o); }
            }
            5..=7 => { // a pool of threads started in a loop, joined in reverse order
                let n = r.range(2, 4) as u64;
                let Some(a) = self.args(r, c, &s, 1) else { return; };
                let Some(id) = self.id(c, n) else { return; };
                let v = uniq("i"); let mut a = a; a[0] = Arg { m: false, e: E::Bin("+", Box::new(id), Box::new(E::V(v.clone()))) };
                let ts = uniq("ts");
                o.push(S::Let(ts.clone(), E::Loop("sift", v, Box::new(E::Num(n as f64)), Box::new(E::Go(s.name, a)))));
                let k = r.below(3); for _ in 0..k { self.stmt(r, c, o); }
                let jn = uniq("j");
                let w = uniq("i");
                let body = vec![S::Let(jn.clone(), E::Join(Box::new(E::Pop(ts.clone())))), S::Ev(vec![E::Str(uniq("e")), E::V(jn)])];
                let cnt = if r.chance(1, 5) { E::Num(1.0) } else { E::Fn1("len", Box::new(E::V(ts))) };
                o.push(S::For(None, w, cnt, body));
            }
            8 => { let Some(a) = self.args(r, c, &s, 2) else { return; }; let Some(id) = self.id(c, 1) else { return; }; let mut a = a; a[0] = Arg { m: false, e: id }; let n = self.decl(c, o, "j", T::Res, false, E::Join(Box::new(E::Go(s.name, a)))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); }
            _ => { // two threads in an array
                let mut gs = vec![];
                for _ in 0..2 { let Some(a) = self.args(r, c, &s, 1) else { return; }; let Some(id) = self.id(c, 1) else { return; }; let mut a = a; a[0] = Arg { m: false, e: id }; gs.push(E::Go(s.name.clone(), a)); }
                let t = uniq("ts"); o.push(S::Let(t.clone(), E::Arr(gs)));
                self.mutate(r, c, o);
                let n = self.decl(c, o, "j", T::Res, false, E::Join(Box::new(E::Pop(t)))); o.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)]));
            }
        }
    }
    /// Changes a variable that a copy handed out earlier may have come from.
    fn mutate(&self, r: &mut Rng, c: &mut Cx, o: &mut Vec<S>) {
        if let Some(v) = Self::pick(r, c, |v| v.w && matches!(v.t, T::ArrN | T::ObjN | T::Num | T::Str | T::Nest)).cloned() {
            match v.t { T::Nest => self.nest_op(r, c, &v.n, o), T::ArrN if r.chance(1, 2) => self.arr_op(r, c, &v.n, o), T::ObjN if r.chance(1, 3) => o.push(S::Set(v.n, vec![Key::F("new".into())], ":=", E::Num(55.0))), T::Str => o.push(S::Set(v.n, vec![], "+=", E::Str("!".into()))), T::ArrN if r.chance(1, 2) => o.push(S::Push(v.n, E::Num(777.0))), T::ArrN => o.push(S::Set(v.n, vec![Key::I(E::Num(0.0))], "=", E::Num(888.0))), T::ObjN => o.push(S::Set(v.n, vec![Key::F("x".into())], "=", E::Num(999.0))), _ => o.push(S::Set(v.n, vec![], "+=", E::Num(1000.0))) }
        }
    }
    fn params_num(&self, r: &mut Rng, ps: &[(String, T, bool, Option<bool>)]) -> E { let v: Vec<&String> = ps.iter().filter(|p| p.1 == T::Num).map(|p| &p.0).collect(); if v.is_empty() { E::Num(4.0) } else { E::V((*r.pick(&v)).clone()) } }
    fn fun(&self, r: &mut Rng, name: String, kind: Kind, sigs: &[Sig], modv: Option<Vec<Sig>>, n: usize) -> (Fun, Sig) {
        let mut params: Vec<(String, T, bool, Option<bool>)> = vec![];
        if kind == Kind::Thread { params.push(("id".into(), T::Num, false, None)); }
        let pts = match self.fl { Fl::Iso => [T::Any, T::Any, T::ArrN, T::ObjN, T::Clos, T::Link, T::Str, T::Nest, T::Sec, T::Vec4, T::OptA, T::OptA], _ => [T::Num, T::Any, T::ArrN, T::Num, T::ObjN, T::Str, T::Bool, T::Nest, T::Sec, T::Vec4, T::OptA, T::Num] };
        let np = match kind { Kind::Lazy => 2, Kind::Cur | Kind::Bump => 1, _ => if r.chance(1, 6) { r.range(3, 4) } else { r.range(if kind == Kind::Thread { 0 } else { 1 }, 2) } };
        if kind == Kind::Rec { params.push(("n".into(), T::Num, false, None)); }
        for _ in 0..np {
            let t = match kind { Kind::Lazy => T::Bool, Kind::Cur | Kind::Bump | Kind::Clos => T::Num, _ => *r.pick(&pts) };
            let m = matches!(kind, Kind::Void | Kind::Num | Kind::Thread | Kind::Any) && matches!(t, T::ArrN | T::ObjN | T::Nest) && r.chance(1, 2);
            let lz = if kind == Kind::Lazy && (params.is_empty() || r.chance(1, 2)) { Some(r.chance(1, 2)) } else { None };
            params.push((uniq("p"), t, m, lz));
        }
        if modv.is_some() { params.push(("md".into(), T::Mod, false, None)); }
        let mut c = Cx { vars: vec![], sigs: sigs.to_vec(), ret: kind.clone(), loops: vec![], thread_ids: kind == Kind::Thread, site: 1, depth: 0, curs: false, modv: modv.map(|s| ("md".to_string(), s)), watch: if kind == Kind::Thread && self.watch { Some(wnames()) } else { None }, boom: false, budget: 40 };
        for p in &params { c.vars.push(Var { n: p.0.clone(), t: p.1, w: p.2 }); }
        if c.vars.first().map_or(false, |v| v.n == "id") { c.vars[0].t = T::Num; c.vars[0].w = false; }
        let mut body = vec![];
        if kind == Kind::Thread { body.push(S::Ev(vec![E::Str("start".into()), E::V("id".into())])); }
        if kind == Kind::Bump { body.push(S::Set("cur".into(), vec![], "+=", E::V(params[0].0.clone()))); }
        let curs: Vec<(String, bool)> = match kind { Kind::Cur | Kind::Bump => { let b = kind == Kind::Bump; let mut v = vec![("cur".to_string(), b)]; if r.chance(1, 4) { let at = r.below(2); v.insert(at, ("cu2".into(), b && r.chance(1, 2))); } v } _ => vec![] };
        let nn = if matches!(kind, Kind::Lazy | Kind::Bump | Kind::Cur | Kind::Clos) { r.below(2) } else { n };
        if kind == Kind::Cur { let mut v = vec![E::Str(uniq("e"))]; for x in &curs { v.push(E::V(x.0.clone())); } body.push(S::Ev(v)); }
        if curs.iter().any(|x| x.0 == "cu2" && x.1) { body.push(S::Set("cu2".into(), vec![], "+=", E::Num(100.0))); }
        if matches!(self.fl, Fl::Try | Fl::Host) && !matches!(kind, Kind::Cur | Kind::Bump | Kind::Lazy | Kind::Clos) && r.chance(1, 3) { let e = self.num(r, &c, 0); body.push(S::Cur("cur".into(), E::Bin("+", Box::new(e), Box::new(E::Num(1.0))))); c.curs = true; }
        if kind == Kind::Rec { let e = self.ret(r, &c); body.push(S::If(E::Bin("<", Box::new(E::V("n".into())), Box::new(E::Num(1.0))), vec![S::Ret(e)], vec![])); }
        if matches!(kind, Kind::Thread | Kind::Any | Kind::Void | Kind::Rec) && r.chance(1, if kind == Kind::Thread { 1 } else { 3 }) { self.seedvars(r, &mut c, &mut body); }
        let half = if kind == Kind::Rec { nn / 2 } else { nn };
        body.extend(self.stmts(r, &mut c, half));
        if kind == Kind::Rec {
            let mut a = vec![Arg { m: false, e: E::Bin("-", Box::new(E::V("n".into())), Box::new(E::Num(1.0))) }];
            for p in &params[1..] { let e = if r.chance(1, 2) { E::V(p.0.clone()) } else { self.of(r, &c, p.1, 1) }; a.push(Arg { m: false, e }); }
            let e = E::Call(name.clone(), a); let (e, t) = if r.chance(1, 2) { (E::Try(Box::new(e)), T::Res) } else { (e, T::Any) };
            let v = self.decl(&mut c, &mut body, "r", t, false, e); body.push(S::Ev(vec![E::Str(uniq("e")), E::V(v)]));
            body.extend(self.stmts(r, &mut c, nn - half));
        }
        if matches!(kind, Kind::Thread | Kind::Any | Kind::Void | Kind::Rec) && r.chance(1, 2) { self.epilogue(&c, &mut body); }
        if kind == Kind::Thread && r.chance(1, if self.fl == Fl::Join { 6 } else { 12 }) { let cnd = self.boolean(r, &c, 1); body.push(S::If(cnd, vec![S::Boom("x".into())], vec![])); }
        let rt = if kind == Kind::Cur { Some(E::Bin("+", Box::new(E::V("cur".into())), Box::new(E::Num(1.0)))) } else { self.ret(r, &c) };
        if let Some(e) = rt {
            if matches!(kind, Kind::Num | Kind::Any | Kind::Thread | Kind::Rec) && r.chance(1, 4) {
                // the result is set before the end, maybe more than once
                let at = r.range(if kind == Kind::Thread { 1 } else { 0 }, body.len());
                let simple = match kind { Kind::Num => E::Bin("+", Box::new(self.params_num(r, &params)), Box::new(E::Num(3.0))), _ => { let x = lit::any(r, 1); E::Arr(vec![E::Lit(x.0, x.1)]) } };
                let late = r.chance(1, 2);
                if late { let cnd = self.boolean(r, &c, 0); let e = if kind == Kind::Num { e } else { E::Arr(vec![e]) }; body.push(S::If(cnd, vec![S::RetSet(e)], vec![])); self.ev(r, &c, &mut body); }
                body.insert(at, S::RetSet(simple));
            } else { body.push(S::Ret(Some(e))); }
        }
        let ret = match kind { Kind::Num | Kind::Cur => Some("f64"), Kind::Lazy => Some("bool"), Kind::Res => Some("res[any]"), Kind::Clos => Some("\\(f64) -> f64"), Kind::Any | Kind::Thread | Kind::Rec => Some("any"), _ => None };
        let sig = Sig { name: name.clone(), kind: kind.clone(), params: params.iter().map(|p| (p.1, p.2)).collect() };
        let f = Fun { name, params: params.into_iter().map(|(n, t, m, l)| (n, ty(t).to_string(), m, l)).collect(), ret: ret.map(|x| x.to_string()), cur: curs, body };
        (f, sig)
    }
}
fn mentions(e: &E, v: &str) -> bool { let s = e.src(); let b = s.as_bytes(); let mut i = 0; while let Some(k) = s[i..].find(v) { let p = i + k; let q = p + v.len(); let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_'; if (p == 0 || !w(b[p - 1])) && (q >= b.len() || !w(b[q])) { return true; } i = p + 1; } false }
/// Replaces the loop variable by a constant (used when a `for` body becomes a `loop` body).
fn rename(b: Vec<S>, v: &str) -> Vec<S> { let mut o = vec![S::Let(v.into(), E::Num(1.0))]; o.extend(b); o }

/// One host operation: the function to call and its arguments.
#[derive(Clone, Debug)]
struct HostOp { f: String, args: Vec<Val>, ret: bool, run: bool, call: bool, m: usize }

pub struct ProgPlan { fl: Fl, mods: Vec<HashMap<String, Fun>>, order: Vec<Vec<String>>, imports: Vec<Vec<usize>>, md: Md, ops: Vec<HostOp>, loaded: OnceCell<Vec<Arc<dyon::Module>>> }
/// How `main` comes by the module it calls: not at all, from the host, or by loading it itself.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Md { No, Host, Script }
const NAMES: [&str; 5] = ["main.dyon", "lib.dyon", "a.dyon", "b.dyon", "c.dyon"];

fn make(g: &mut Gen, fl: Fl) -> Box<dyn Plan> { Box::new(plan(g, fl)) }
/// Functions a module sees through its imports (the latest import wins) when its own functions have names that start with `own`.
fn seen(imps: &[&Vec<Sig>], own: char) -> Vec<Sig> {
    let mut o: Vec<Sig> = vec![];
    for i in imps.iter().rev() { for s in i.iter().rev() { if !s.name.starts_with(own) && !o.iter().any(|x| x.name == s.name) { o.push(s.clone()); } } }
    o
}
pub fn plan(g: &mut Gen, fl: Fl) -> ProgPlan {
    unsafe { UNIQ = 0; }
    let watch = fl == Fl::Iso && g.r.chance(1, 2);
    let gg = G { fl, watch };
    // functions of modules do not see the observed functions of the main module
    let lg = G { fl, watch: false };
    let mut mods: Vec<HashMap<String, Fun>> = vec![]; let mut order: Vec<Vec<String>> = vec![];
    let add = |m: &mut HashMap<String, Fun>, o: &mut Vec<String>, f: Fun| { o.push(f.name.clone()); m.insert(f.name.clone(), f); };
    // --- modules that are called through call/call_ret, and what they import ---------------------------------
    let md = match fl { Fl::Mods => if g.r.chance(1, 3) { Md::Script } else { Md::Host }, Fl::Try => if g.r.chance(1, 2) { Md::Host } else { Md::No }, Fl::Join | Fl::Iso => if g.r.chance(1, 5) { Md::Host } else { Md::No }, Fl::Host => if g.r.chance(1, 2) { Md::Host } else { Md::No }, _ => Md::No };
    let nomod = |v: &[Sig]| -> Vec<Sig> { v.iter().filter(|s| !s.params.iter().any(|p| p.0 == T::Mod)).cloned().collect() };
    let mut made: Vec<(HashMap<String, Fun>, Vec<String>, Vec<Sig>)> = vec![];
    let nbase = if md == Md::No { 0 } else { *g.r.pick(&[0, 1, 1, 2, 2, 3]) };
    let mut some_of = |n: usize, p: (usize, usize)| -> Vec<usize> { let mut v: Vec<usize> = (0..n).filter(|_| g.r.chance(p.0, p.1)).collect(); if v.len() > 1 && g.r.chance(1, 2) { let a = g.r.below(v.len()); v.swap(0, a); } v };
    let imp_of: Vec<Vec<usize>> = (0..=nbase).map(|k| if k == nbase { some_of(k, (4, 5)) } else { some_of(k, (1, 2)) }).collect();
    let mut imports: Vec<Vec<usize>> = vec![vec![]; 2];
    let mut full: Vec<Vec<Sig>> = vec![];
    // the modules in the order in which they are loaded: a, b (may import a), lib (imports them)
    for k in 0..if md == Md::No { 0 } else { nbase + 1 } {
        let lib = k == nbase;
        let imps: Vec<usize> = imp_of[k].clone();
        let own = if lib { 'l' } else { ['a', 'b', 'c'][k] };
        let (mut m, mut o, mut sg) = (HashMap::new(), vec![], vec![]);
        let vis: Vec<Sig> = { let v: Vec<&Vec<Sig>> = imps.iter().map(|i| &made[*i].2).collect(); seen(&v, 'f') };
        let mut kinds = vec![Kind::Num, Kind::Any, Kind::Void, Kind::Res, Kind::Clos, Kind::Num, Kind::Rec, Kind::Cur]; if !lib && fl != Fl::Host { kinds.extend([Kind::Thread, Kind::Thread]); }
        for i in 0..g.r.range(2, if lib { 5 } else { 3 }) {
            let mut r = g.r.fork();
            let kind = if i == 0 { Kind::Num } else { r.pick(&kinds).clone() };
            // some functions share their names with functions of other modules
            let name = if r.chance(1, 2) { format!("f{i}") } else { format!("{own}{i}") };
            let mut local = nomod(&sg); local.extend(vis.iter().cloned());
            let mdv = if lib && !sg.is_empty() && r.chance(1, 3) { Some(nomod(&sg)) } else { None };
            let nst = r.range(1, if lib { 4 } else { 2 });
            // functions without mutable arguments: call_ret passes copies of references
            let (f, s) = lg.fun(&mut r, name, kind, &local, mdv.filter(|v| !v.is_empty()), nst);
            if f.params.iter().any(|p| p.2) { continue; }
            add(&mut m, &mut o, f); sg.push(s);
        }
        // every name that the module knows: its own functions, else those of the latest import having it
        let mut fu = sg.clone(); for i in imps.iter().rev() { for s in &full[*i] { if !fu.iter().any(|x| x.name == s.name) { fu.push(s.clone()); } } } full.push(fu);
        if !lib { let mut all = vis.clone(); all.extend(sg.iter().cloned()); sg = all; imports.push(imps.iter().map(|i| i + 2).collect()); } else { imports[1] = imps.iter().map(|i| i + 2).collect(); }
        made.push((m, o, sg));
    }
    // what can be called in lib by name: its own functions and the imported ones
    let msigs: Vec<Sig> = full.last().cloned().unwrap_or_default();
    if md != Md::No && nbase > 0 && g.r.chance(2, 3) { imports[0] = if nbase > 1 { g.r.pick(&[vec![2], vec![3], vec![2, 3], vec![3, 2], vec![nbase + 1], vec![nbase + 1, 2]]).clone() } else { vec![2] }; }
    let inherited: Vec<Sig> = { let v: Vec<&Vec<Sig>> = imports[0].iter().map(|i| &made[*i - 2].2).collect(); seen(&v, 'f') };
    // --- main module -----------------------------------------------------------------------------------------
    let (mut m0, mut o0) = (HashMap::new(), vec![]);
    let mut sigs: Vec<Sig> = vec![];
    let nf = g.r.range(2, 6);
    let kinds = match fl { Fl::Join | Fl::Iso | Fl::Mem => vec![Kind::Thread, Kind::Any, Kind::Void, Kind::Num, Kind::Thread, Kind::Lazy, Kind::Cur, Kind::Bump, Kind::Thread, Kind::Res, Kind::Rec], _ => vec![Kind::Num, Kind::Any, Kind::Void, Kind::Res, Kind::Lazy, Kind::Cur, Kind::Bump, Kind::Thread, Kind::Num, Kind::Clos, Kind::Rec] };
    // functions of lib that take lib itself as their last argument call back into it
    let modsigs: Option<Vec<Sig>> = if !msigs.is_empty() && fl != Fl::Host { Some(msigs.clone()) } else { None };
    sigs.extend(inherited);
    let with_md = |s: &Sig| s.params.iter().any(|p| p.0 == T::Mod);
    for i in 0..nf + 2 {
        let mut r = g.r.fork();
        let k = if i == 0 { Kind::Void } else if i == 1 { Kind::Num } else if i == 2 && matches!(fl, Fl::Try | Fl::Host) { Kind::Cur } else if i == 2 && matches!(fl, Fl::Join | Fl::Iso | Fl::Mem) { Kind::Thread } else { r.pick(&kinds).clone() };
        let avail: Vec<Sig> = sigs.iter().filter(|s| !with_md(s) && (s.kind != Kind::Thread || k == Kind::Thread)).cloned().collect();
        let md = if r.chance(1, 2) && matches!(k, Kind::Any | Kind::Num | Kind::Thread) { modsigs.clone() } else { None };
        let nst = r.range(2, 5);
        let (f, s) = gg.fun(&mut r, format!("f{i}"), k, &avail, md, nst);
        add(&mut m0, &mut o0, f); sigs.push(s);
    }
    let mut ops = vec![];
    if fl == Fl::Host {
        // a sequence of calls by the host on one runtime
        let cand: Vec<Sig> = sigs.iter().filter(|s| s.params.iter().all(|p| !p.1 && matches!(p.0, T::Num | T::Any)) && !matches!(s.kind, Kind::Thread)).cloned().collect();
        let lcand: Vec<Sig> = msigs.iter().filter(|s| s.params.iter().all(|p| !p.1 && matches!(p.0, T::Num | T::Any)) && !matches!(s.kind, Kind::Thread)).cloned().collect();
        let mut c = Cx { vars: vec![], sigs: sigs.iter().filter(|s| s.kind != Kind::Thread && !with_md(s)).cloned().collect(), ret: Kind::Void, loops: vec![], thread_ids: false, site: 1, depth: 0, curs: false, modv: None, watch: None, boom: false, budget: 60 };
        let mut r0 = g.r.fork(); let nst = r0.range(2, 5);
        let mut body = vec![]; gg.seedvars(&mut r0, &mut c, &mut body);
        body.extend(gg.stmts(&mut r0, &mut c, nst)); gg.epilogue(&c, &mut body);
        add(&mut m0, &mut o0, Fun { name: "main".into(), params: vec![], ret: None, cur: vec![], body });
        let nops = g.r.range(3, 8);
        for mut r in g.items(nops) {
            if cand.is_empty() || r.chance(1, 4) { ops.push(HostOp { f: "main".into(), args: vec![], ret: false, run: true, call: false, m: 0 }); continue; }
            let m = if !lcand.is_empty() && r.chance(1, 3) { 1 } else { 0 };
            let s = r.pick(if m == 1 { &lcand } else { &cand }).clone();
            let args = s.params.iter().map(|p| if p.0 == T::Num { lit::num(&mut r).1 } else { loop { let v = lit::any(&mut r, 2).1; if to_var(&v).is_some() { break v; } } }).collect();
            let rets = !matches!(s.kind, Kind::Void | Kind::Bump);
            if s.kind == Kind::Lazy { continue; }
            let mut args: Vec<Val> = args; if s.kind == Kind::Rec { args[0] = Val::Num(r.below(4) as f64); }
            let ret = if r.chance(1, 6) { !rets } else { rets };
            ops.push(HostOp { f: s.name, args, ret, run: false, call: r.chance(1, 3), m });
        }
        if g.r.chance(1, 3) { ops.push(HostOp { f: "missing".into(), args: vec![], ret: true, run: false, call: false, m: 0 }); }
    } else {
        let mut c = Cx { vars: vec![], sigs: sigs.iter().filter(|s| !with_md(s)).cloned().collect(), ret: Kind::Any, loops: vec![], thread_ids: true, site: 1, depth: 0, curs: false, modv: modsigs.clone().map(|s| ("md".to_string(), s)), watch: if watch { Some(wnames()) } else { None }, boom: false, budget: 80 };
        let mdsigs: Vec<Sig> = sigs.iter().filter(|s| with_md(s)).cloned().collect();
        let mut params = vec![("id".to_string(), "f64".to_string(), false, None)];
        if md == Md::Host { params.push(("md".into(), "any".into(), false, None)); }
        let mut body = vec![S::Ev(vec![E::Str("start".into()), E::V("id".into())])]; let mut tail = vec![];
        if md == Md::Script {
            params.push(("srcs".into(), "[str]".into(), false, None));
            let tr = g.r.chance(1, 3);
            for k in 2..=nbase + 2 { let k = if k == nbase + 2 { 1 } else { k };
                let v = if k == 1 { "md".to_string() } else { format!("m{}", ['a', 'b', 'c'][k - 2]) };
                body.push(S::Let(v, E::Mod(format!("unwrap(module(in: \"{}\", string: srcs[{k}], imports: [{}]{}))", NAMES[k], imports[k].iter().map(|i| format!("m{}", ['a', 'b', 'c'][*i - 2])).collect::<Vec<_>>().join(", "), if tr { ", tr: false, usetr: true" } else { "" }), k)));
            }
        }
        { let mut r = g.r.fork(); gg.seedvars(&mut r, &mut c, &mut body); }
        if watch {
            let mk = |m: bool, n: &str| Fun { name: n.into(), params: vec![("k".into(), "f64".into(), false, None), ("x".into(), if m { "[]" } else { "any" }.into(), m, None)], ret: Some("f64".into()), cur: vec![], body: { let mut b = vec![]; if m { b.push(S::Push("x".into(), E::Num(9000.0))); } b.push(S::Ret(Some(E::Bin("+", Box::new(E::V("k".into())), Box::new(E::Num(1.0)))))); b } };
            add(&mut m0, &mut o0, mk(false, "wat"));
            let read = |rx: &str, k: u32, f: &str| S::Raw(format!("for m in {rx} {{\n        msg([{k}, \"{f}\", m])\n        push(mut m, 7)\n        m[0] = 0\n        q := pop(mut m)\n        z := remove(mut m, 0)\n        clear(mut m)\n    }}"));
            add(&mut m0, &mut o0, Fun { name: "rdr".into(), params: vec![("id".into(), "f64".into(), false, None), ("rx".into(), "in[[]]".into(), false, None)], ret: Some("f64".into()), cur: vec![], body: vec![S::Ev(vec![E::Str("start".into()), E::V("id".into())]), S::For(None, "i".into(), E::Num(8.0), vec![S::Raw("yieldp()".into()), read("rx", 2, "wat")]), S::Ret(Some(E::Num(1.0)))] });
            let rxv = |f: &str| E::Lit(format!("in {f}"), Val::Other("in".into()));
            body.push(S::Let("rx1".into(), rxv("wat"))); body.push(S::Let("rx2".into(), rxv("wat")));
            if g.r.chance(1, 2) { if let Some(id) = gg.id(&mut c, 1) { body.push(S::Let("trd".into(), E::Go("rdr".into(), vec![Arg { m: false, e: id }, Arg { m: false, e: E::V("rx2".into()) }]))); } }
            tail = vec![S::Ev(vec![E::Str("drain".into())]), read("rx1", 1, "wat"), read("rx2", 2, "wat")];
        }
        let ns = g.r.range(5, 14);
        for mut r in g.items(ns) {
            if !mdsigs.is_empty() && r.chance(1, 2) {
                let s = r.pick(&mdsigs).clone();
                let mut s2 = s.clone(); s2.params.pop();
                if let Some(mut a) = gg.args(&mut r, &c, &s2, 1) {
                    a.push(Arg { m: false, e: E::V("md".into()) });
                    if s.kind == Kind::Thread {
                        if let Some(id) = gg.id(&mut c, 3) { let v = uniq("i"); a[0] = Arg { m: false, e: E::Bin("+", Box::new(id), Box::new(E::V(v.clone()))) };
                            let ts = uniq("ts"); body.push(S::Let(ts.clone(), E::Loop("sift", v, Box::new(E::Num(3.0)), Box::new(E::Go(s.name.clone(), a)))));
                            gg.stmt(&mut r, &mut c, &mut body);
                            let jn = uniq("j"); body.push(S::For(None, uniq("i"), E::Fn1("len", Box::new(E::V(ts.clone()))), vec![S::Let(jn.clone(), E::Join(Box::new(E::Pop(ts)))), S::Ev(vec![E::Str(uniq("e")), E::V(jn)])])); }
                    } else { let n = gg.decl(&mut c, &mut body, "r", T::Res, false, E::Try(Box::new(E::Call(s.name.clone(), a)))); body.push(S::Ev(vec![E::Str(uniq("e")), E::V(n)])); }
                }
                continue;
            }
            gg.stmt(&mut r, &mut c, &mut body);
            if r.chance(1, 2) { gg.ev(&mut r, &c, &mut body); }
        }
        gg.epilogue(&c, &mut body);
        body.extend(tail);
        let mut r = g.r.fork(); let e = gg.ret(&mut r, &c); body.push(S::Ret(e));
        add(&mut m0, &mut o0, Fun { name: "main".into(), params, ret: Some("any".into()), cur: vec![], body });
        ops.push(HostOp { f: "main".into(), args: vec![Val::Num(1.0)], ret: true, run: false, call: false, m: 0 });
    }
    mods.push(m0); order.push(o0);
    if let Some((m, o, _)) = made.pop() { mods.push(m); order.push(o); }
    for (m, o, _) in made { mods.push(m); order.push(o); }
    imports.truncate(mods.len());
    let mut p = ProgPlan { fl, mods, order, imports, md, ops, loaded: OnceCell::new() };
    if md == Md::Script { let v = (0..p.mods.len()).map(|k| Val::Str(if k == 0 { String::new() } else { p.src(k) })).collect(); for o in &mut p.ops { o.args.push(Val::Arr(v)); break; } }
    p
}
pub fn join(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Join) }
pub fn iso(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Iso) }
pub fn mods(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Mods) }
pub fn tries(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Try) }
pub fn hostcalls(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Host) }
pub fn mem(g: &mut Gen) -> Box<dyn Plan> { make(g, Fl::Mem) }

pub fn to_var(v: &Val) -> Option<dyon::Variable> {
    use dyon::Variable as V;
    Some(match v { Val::Sec(x, y) => { let y: Vec<V> = y.iter().map(to_var).collect::<Option<_>>()?; match &**x { Val::Bool(b) => V::Bool(*b, Some(Box::new(y))), Val::Num(n) => V::F64(*n, Some(Box::new(y))), _ => return None } } Val::Num(x) => V::f64(*x), Val::Bool(b) => V::bool(*b), Val::Str(s) => V::Str(Arc::new(s.clone())), Val::Vec4(x) => V::Vec4(*x), Val::Arr(a) => V::Array(Arc::new(a.iter().map(to_var).collect::<Option<Vec<_>>>()?)),
        Val::Obj(o) => { let mut h = dyon::Variable::Object(Arc::new(Default::default())); if let V::Object(m) = &mut h { let m = Arc::make_mut(m); for (k, x) in o { m.insert(Arc::new(k.clone()), to_var(x)?); } } h }
        Val::Opt(None) => V::Option(None), Val::Opt(Some(x)) => V::Option(Some(Box::new(to_var(x)?))), Val::Ok(x) => V::Result(Ok(Box::new(to_var(x)?))), Val::Link(a) => { let mut l = dyon::Link::new(); for x in a { l.push(&to_var(x)?).ok()?; } V::Link(Box::new(l)) } Val::Err(_) | Val::Mat4(_) | Val::Other(_) => return None })
}

impl ProgPlan {
    pub fn funs(&self, k: usize) -> Vec<String> { self.order[k].iter().map(|f| self.mods[k][f].src()).collect() }
    /// The modules in the order in which they have to be loaded (the main module last): number and positions of the imports in this list.
    pub fn load_order(&self) -> Vec<(usize, Vec<usize>)> {
        let ord: Vec<usize> = (2..self.mods.len()).chain(1..self.mods.len().min(2)).chain(0..1).collect();
        ord.iter().map(|k| (*k, self.imports[*k].iter().map(|i| ord.iter().position(|x| x == i).unwrap()).collect())).collect()
    }
    /// Takes modules that were loaded elsewhere, in load order.
    pub fn use_modules(&self, ms: &[Arc<dyon::Module>]) { let mut v: Vec<(usize, Arc<dyon::Module>)> = self.load_order().into_iter().zip(ms).map(|((k, _), m)| (k, m.clone())).collect(); v.sort_by_key(|x| x.0); let _ = self.loaded.set(v.into_iter().map(|x| x.1).collect()); }
    pub fn src(&self, k: usize) -> String { self.order[k].iter().map(|f| self.mods[k][f].src()).collect() }
}
impl Plan for ProgPlan {
    fn describe(&self) -> String {
        let mut s = String::new();
        for k in 1..self.mods.len() { s += &format!("// module {}{}, imports {:?}\n{}", NAMES[k], if k == 1 { ", passed as md" } else { "" }, self.imports[k].iter().map(|i| NAMES[*i]).collect::<Vec<_>>(), self.src(k)); }
        s += &format!("// main module, imports {:?}\n{}// host calls on one runtime:", self.imports[0].iter().map(|i| NAMES[*i]).collect::<Vec<_>>(), self.src(0));
        for o in &self.ops { s += &format!(" {}({})", if o.run { "run".into() } else { o.f.clone() }, o.args.iter().map(|x| x.render()).collect::<Vec<_>>().join(", ")); }
        s
    }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, _p: &Probe) { if r.chance(3, 4) { c.pf[sim::F_HOST] = *r.pick(&[3000, 12000, 30000]); } c.max_faults = 40; }
    fn ledger(&self) -> bool { self.fl == Fl::Mem }
    fn setup(&self) -> Result<(), String> {
        let mut v: Vec<Option<Arc<dyon::Module>>> = vec![None; self.mods.len()];
        for k in (2..self.mods.len()).chain(1..self.mods.len().min(2)).chain(0..1) {
            let mut m = host::base();
            for i in &self.imports[k] { m.import(v[*i].as_ref().unwrap()); }
            dyon::load_str(NAMES[k], Arc::new(self.src(k)), &mut m).map_err(|e| format!("module does not load|{e}"))?;
            v[k] = Some(Arc::new(m));
        }
        let _ = self.loaded.set(v.into_iter().map(|x| x.unwrap()).collect());
        Ok(())
    }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> {
        use std::sync::Mutex;
        let ms = self.loaded.get().unwrap();
        unsafe { crate::val::SECRETS = true; }
        let mut obs: Vec<(Result<Option<Val>, String>, usize, [usize; 4])> = vec![];
        if self.fl == Fl::Mem { return self.run_mem(s); }
        {
            let mut rt = dyon::Runtime::new();
            sim::explore(true);
            let mut fat = vec![0];
            for o in &self.ops {
                let mut args: Vec<dyon::Variable> = o.args.iter().map(|x| to_var(x).unwrap()).collect();
                if self.md == Md::Host && self.fl != Fl::Host { args.push(dyon::Variable::RustObject(Arc::new(Mutex::new(ms[1].clone())) as dyon::RustObject)); }
                let r = self.op(&mut rt, o, args);
                obs.push((r, host::events().len(), [rt.stack.len(), rt.call_stack.len(), rt.local_stack.len(), rt.current_stack.len()]));
                fat.push(host::faults().len());
            }
            if self.fl == Fl::Host {
                // The same invocations, each on a runtime of its own.
                sim::explore(false);
                let (ne, fs) = (host::events().len(), host::faults().clone());
                for (k, o) in self.ops.iter().enumerate() {
                    unsafe { host::FORCE = Some(fs[fat[k]..fat[k + 1]].iter().map(|x| x.1).collect()); }
                    let at = host::events().len();
                    let mut rt = dyon::Runtime::new();
                    let r = self.op(&mut rt, o, o.args.iter().map(|x| to_var(x).unwrap()).collect());
                    unsafe { host::FORCE = None; }
                    let show = |r: &Result<Option<Val>, String>| match r { Ok(Some(v)) => v.render(), Ok(None) => "nothing".into(), Err(e) => format!("the error {e}") };
                    let from = if k == 0 { 0 } else { obs[k - 1].1 };
                    let (a, b): (Vec<String>, Vec<String>) = (host::events()[from..obs[k].1].iter().map(|e| e.v.render()).collect(), host::events()[at..].iter().map(|e| e.v.render()).collect());
                    if show(&r) != show(&obs[k].0) || a != b { return Err(format!("used runtime behaves differently from a fresh one|host call {} of {}: {} but on a fresh runtime {}\n  events {a:?}\n  fresh  {b:?}", k, o.f, show(&obs[k].0), show(&r))); }
                    count(s, "compared_with_fresh_runtime", 1);
                }
                host::events().truncate(ne); host::faults().truncate(fs.len());
            }
            // Threads that nobody joined come to their end.
            let mut k = 0; while sim::live_threads() > 1 && k < 100_000 { std::thread::sleep(std::time::Duration::from_micros(50)); k += 1; }
            sim::explore(false);
            if sim::live_threads() > 1 { return Err("thread never ends|a thread that was not joined is still running".into()); }
        }
        self.judge(s, &obs)
    }
}
impl ProgPlan {
    fn op(&self, rt: &mut dyon::Runtime, o: &HostOp, args: Vec<dyon::Variable>) -> Result<Option<Val>, String> {
        let m = &self.loaded.get().unwrap()[o.m];
        let r = if o.run { rt.run(m).map(|_| None) } else if o.call { let mut c = dyon::Call::new(&o.f); for a in args { c = c.arg(a); } if o.ret { c.run_ret::<dyon::Variable>(rt, m).map(Some) } else { c.run(rt, m).map(|_| None) } } else if o.ret { rt.call_str_ret(&o.f, &args, m).map(Some) } else { rt.call_str(&o.f, &args, m).map(|_| None) };
        r.map(|x| x.map(|v| { if crate::val::has_ref(&v) && self.fl != Fl::Host { Val::Other(format!("REFERENCE in {}", crate::val::of(rt, &v).render())) } else { crate::val::of(rt, &v) } }))
    }
    fn judge(&self, s: &mut Shm, obs: &[(Result<Option<Val>, String>, usize, [usize; 4])]) -> Result<(), String> {
        // logical threads of the observed run
        let mut label: HashMap<u32, u64> = HashMap::new(); let mut per: BTreeMap<u64, Vec<Val>> = BTreeMap::new();
        let main_tid = sim::tid();
        label.insert(main_tid, 1);
        let mut msgs: Vec<(String, u64, Val, u64)> = vec![]; // receiver and function, sending thread, value, reader
        let mut bounds = vec![]; // events of thread 1 per host operation
        let mut oi = 0; let mut n1 = 0;
        for (i, e) in host::events().iter().enumerate() {
            while oi < obs.len() && obs[oi].1 <= i { bounds.push(n1); oi += 1; }
            let l = match label.get(&e.tid) { Some(l) => *l, None => {
                let l = match e.v.arr() { Some([Val::Str(k), Val::Num(l)]) if k == "start" => *l as u64, _ => return Err(format!("event of an unknown thread|T{} {}", e.tid, e.v.render())) };
                if label.values().any(|x| *x == l) { return Err(format!("thread body ran twice|thread {l}")); }
                label.insert(e.tid, l); l } };
            if let Some([Val::Str(t), Val::Arr(x)]) = e.v.arr() { if t == "msg" {
                match x.as_slice() { [Val::Num(k), Val::Str(f), Val::Arr(a)] if a.len() == 2 && a[0].num().is_some() => msgs.push((format!("{k} {f}"), a[0].num().unwrap() as u64, a[1].clone(), l)), _ => return Err(format!("bad message|{}", e.v.render())) }
                continue;
            } }
            if l == 1 { n1 += 1; }
            per.entry(l).or_default().push(e.v.clone());
        }
        // messages: what each thread sent, per function, in its order (two readers may share a receiver)
        let mut nm = 0;
        for rx in ["1 wat", "2 wat"] { for (l, ev) in &per {
            let tag = format!("sent {}", &rx[2..]);
            let sent: Vec<&Val> = ev.iter().filter_map(|e| match e.arr() { Some([Val::Str(t), _, x]) if *t == tag => Some(x), _ => None }).collect();
            let got: Vec<&(String, u64, Val, u64)> = msgs.iter().filter(|m| m.0 == rx && m.1 == *l).collect();
            nm += got.len() as u64;
            if *l == 1 && got.len() < sent.len() && ev.iter().any(|e| matches!(e.arr(), Some([Val::Str(t)]) if t == "drain")) { return Err(format!("message lost|receiver {rx}: {} of {} messages of thread {l}", got.len(), sent.len())); }
            if got.len() > sent.len() { return Err(format!("message that was never sent|receiver {rx}: thread {l}")); }
            let mut next: HashMap<u64, usize> = HashMap::new(); let mut used = vec![false; sent.len()];
            for m in got { let from = *next.get(&m.3).unwrap_or(&0); match (from..sent.len()).find(|i| !used[*i] && sent[*i].render() == m.2.render()) { Some(i) => { used[i] = true; next.insert(m.3, i + 1); } None => { let mut o = String::new(); for (i, e) in host::events().iter().enumerate() { o += &format!("\n  {i}: T{} {}", e.tid, e.v.render()); } return Err(format!("message differs from the arguments of the call|receiver {rx}: {} from thread {l}, which sent {}{o}", m.2.render(), sent.iter().map(|x| x.render()).collect::<Vec<_>>().join("  "))); } } }
        } }
        count(s, "messages_checked", nm);
        let mut faults: HashMap<u64, Vec<bool>> = HashMap::new();
        for (t, f) in host::faults().iter() { if let Some(l) = label.get(t) { faults.entry(*l).or_default().push(*f); } else if *f { return Err("fault in a thread without events|".into()); } }
        let mut m = Model::new(self.mods.iter().collect(), self.imports.clone(), faults);
        let hist = || { let mut o = String::new(); for (i, e) in host::events().iter().enumerate() { o += &format!("\n  {i}: T{} (thread {}) {}", e.tid, label.get(&e.tid).unwrap_or(&0), e.v.render()); } o };
        let mut th = m.thread(1);
        for (k, o) in self.ops.iter().enumerate() {
            let mut args: Vec<MV> = o.args.iter().map(prog::from_val).collect();
            if self.md == Md::Host && self.fl != Fl::Host { args.push(MV::Module(1)); }
            let r = m.call(&mut th, o.m, &o.f, args);
            let want = match r { Ok(v) => Ok(v.map(|v| Model::deep(&th, &v))), Err(Ctl::Err(e)) => { th = m.thread(1); Err(e) } Err(Ctl::Fuel) => return Ok(()), Err(_) => return Err("model|flow out of the program".into()) };
            let same = match (&want, &obs[k].0) { (Ok(None), Ok(None)) => true, (Ok(Some(a)), Ok(Some(b))) => prog::matches(a, b), (Ok(Some(_)), Ok(None)) => !o.ret, (Ok(None), Err(t)) => o.ret && t.contains("Expected"), (Err(e), Err(t)) => t.contains(e.as_str()), _ => false };
            if !same { return Err(format!("call gave a wrong result|host call {} of {} gave {} but should give {}{}", k, o.f, match &obs[k].0 { Ok(Some(v)) => v.render(), Ok(None) => "nothing".into(), Err(e) => format!("the error {e}") }, match &want { Ok(Some(v)) => prog::to_val(v).render(), Ok(None) => "nothing".into(), Err(e) => format!("an error with `{e}`") }, hist())); }
            if self.fl == Fl::Host && obs[k].2 != [0; 4] { return Err(format!("runtime is not back in its initial state|after host call {} of {}: stack, calls, locals, currents {:?}{}", k, o.f, obs[k].2, hist())); }
        }
        for (l, v) in &m.events {
            let got = per.get(l).cloned().unwrap_or_default();
            for i in 0..v.len().max(got.len()) {
                match (v.get(i), got.get(i)) {
                    (Some(a), Some(b)) if prog::matches(a, b) => {}
                    (a, b) => return Err(format!("{}|thread {l} event {i}: expected {} but saw {}{}", if got.is_empty() { "thread body did not run" } else { "wrong value" }, a.map_or("nothing".into(), |x| prog::to_val(x).render()), b.map_or("nothing".into(), |x| x.render()), hist())),
                }
            }
        }
        for l in per.keys() { if !m.events.contains_key(l) { return Err(format!("thread that should not exist|{l}{}", hist())); } }
        let _ = bounds;
        count(s, "values_compared", m.events.values().map(|v| v.len() as u64).sum()); count(s, "threads_joined", m.joins); count(s, "errors_caught", m.caught); count(s, "host_calls", self.ops.len() as u64); count(s, "oracle_checks", m.tries); count(s, "module_calls", m.calls);
        Ok(())
    }
    /// The same programs with the allocation ledger on: the second of two executions in a row must not leave anything behind.
    fn run_mem(&self, s: &mut Shm) -> Result<(), String> {
        let ms = self.loaded.get().unwrap();
        let go = |n: usize| {
            for _ in 0..n {
                let mut rt = dyon::Runtime::new();
                for o in &self.ops {
                    let args: Vec<dyon::Variable> = o.args.iter().map(|x| to_var(x).unwrap()).collect();
                    let r = rt.call_str_ret(&o.f, &args, &ms[0]);
                    drop(r); drop(args);
                }
                drop(rt);
                let mut k = 0; while sim::live_threads() > 1 && k < 100_000 { std::thread::sleep(std::time::Duration::from_micros(50)); k += 1; }
            }
        };
        go(1); // lazily created things of the library and of this thread
        let a = alloc::live();
        sim::explore(true);
        go(1);
        sim::explore(false);
        let b = alloc::live();
        alloc::scan();
        let (d, w, u) = unsafe { (alloc::DOUBLE, alloc::WRONG, alloc::UAF) };
        if d > 0 { return Err(format!("memory released twice|{d} blocks")); }
        if w > 0 { return Err(format!("memory released with a wrong size|{w} blocks")); }
        if u > 0 { return Err(format!("memory written after its release|{u} blocks")); }
        if b.0 != a.0 { return Err(format!("memory leaked|{} blocks ({} bytes) more are alive after the program than before", b.0 - a.0, b.1 - a.1)); }
        count(s, "allocations_checked", unsafe { alloc::TOTAL });
        Ok(())
    }
}
