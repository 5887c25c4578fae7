//! A small language that is a subset of Dyon: source text on one side, an executable reference model on the other.
//! The model knows nothing of stacks, reference counts or threads: `go` runs the function at once on copies.
use crate::val::Val;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum MV {
    Num(f64), Bool(bool), Str(String), Vec4([f32; 4]), Arr(Vec<MV>), Obj(BTreeMap<String, MV>), Opt(Option<Box<MV>>), Ok(Box<MV>), Err(Box<MV>),
    /// an error raised at run time: its text must contain this
    ErrT(String),
    /// a value with its secret
    Sec(Box<MV>, Vec<MV>), Ref(usize), Clos(Box<(String, E, usize)>), Link(Vec<MV>), Thread(u64), Joined, Module(usize), Lit(Val),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Key { I(E), F(String) }
#[derive(Clone, Debug, PartialEq)]
pub struct Arg { pub m: bool, pub e: E }
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Num(f64), Bool(bool), Str(String), Lit(String, Val), V(String), Arr(Vec<E>), Obj(Vec<(String, E)>),
    Bin(&'static str, Box<E>, Box<E>), Not(Box<E>), Idx(String, Vec<Key>), Call(String, Vec<Arg>), Try(Box<E>), Fn1(&'static str, Box<E>), None, UnwrapOr(Box<E>, Box<E>),
    Go(String, Vec<Arg>), Join(Box<E>), Pop(String), Clos(String, Box<E>), Grab(Box<E>), CallClos(String, Box<E>), CallRet(String, String, Vec<E>),
    Loop(&'static str, String, Box<E>, Box<E>), If(Box<E>, Box<E>, Box<E>), FaultNum(Box<E>), Q(Box<E>),
    Link(Vec<E>), LinkFor(String, Box<E>, Vec<E>), Mod(String, usize), Vec4(Vec<E>), Remove(String, Box<E>), Sec(&'static str, u32, u32),
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    /// insert, reverse, swap, clear
    ArrOp(&'static str, String, Vec<E>), Let(String, E), Set(String, Vec<Key>, &'static str, E), Push(String, E), Ev(Vec<E>), If(E, Vec<S>, Vec<S>), For(Option<String>, String, E, Vec<S>), Loop(Option<String>, Vec<S>),
    Break(Option<String>), Cont(Option<String>), Ret(Option<E>), RetSet(E), Ex(E), Fault, Boom(String), Cur(String, E), Raw(String), CallMod(String, String, Vec<E>),
}
#[derive(Clone, Debug)]
pub struct Fun { pub name: String, pub params: Vec<(String, String, bool, Option<bool>)>, pub ret: Option<String>, pub cur: Vec<(String, bool)>, pub body: Vec<S> }

// ---- source text ---------------------------------------------------------------------------------------------
fn n(x: f64) -> String { format!("{x}") }
fn args(a: &[Arg]) -> String { a.iter().map(|x| if x.m { format!("mut {}", x.e.src()) } else { x.e.src() }).collect::<Vec<_>>().join(", ") }
fn list(a: &[E]) -> String { a.iter().map(|x| x.src()).collect::<Vec<_>>().join(", ") }
fn keys(k: &[Key]) -> String { k.iter().map(|k| match k { Key::I(e) => format!("[{}]", e.src()), Key::F(f) => format!(".{f}") }).collect() }
fn prec(op: &str) -> u32 { match op { "||" => 1, "&&" => 2, "<" | ">" | "==" | "!=" => 3, "+" | "-" => 4, _ => 5 } }
impl E {
    /// As an operand of an operator; parentheses only where needed (the parser backtracks exponentially on them).
    fn opnd(&self, p: u32, right: bool) -> String {
        match self {
            E::Bin(o, ..) if (prec(o) > p && p >= 4) || (prec(o) == p && !right && p >= 4) => self.src(),
            E::Bin(..) | E::Not(_) | E::Try(_) | E::Clos(..) | E::If(..) | E::Go(..) | E::Loop(..) => format!("({})", self.src()),
            E::Num(x) if *x < 0.0 => format!("({})", self.src()),
            _ => self.src(),
        }
    }
    pub fn src(&self) -> String {
        match self {
            E::Num(x) => n(*x), E::Bool(b) => b.to_string(), E::Str(s) => format!("\"{s}\""), E::Lit(s, _) => s.clone(), E::V(v) => v.clone(),
            E::Arr(a) => format!("[{}]", list(a)), E::Obj(o) => format!("{{{}}}", o.iter().map(|(k, e)| format!("{k}: {}", e.src())).collect::<Vec<_>>().join(", ")),
            E::Bin(o, a, b) => format!("{} {o} {}", a.opnd(prec(o), false), b.opnd(prec(o), true)), E::Not(a) => format!("!{}", a.opnd(9, true)), E::Idx(v, k) => format!("{v}{}", keys(k)),
            E::Call(f, a) => format!("{f}({})", args(a)), E::Try(e) => format!("try {}", e.src()), E::Fn1(f, e) => format!("{f}({})", e.src()), E::None => "none()".into(),
            E::UnwrapOr(a, b) => format!("unwrap_or({}, {})", a.src(), b.src()), E::Go(f, a) => format!("go {f}({})", args(a)), E::Join(e) => format!("join(thread: {})", e.src()), E::Pop(v) => format!("pop(mut {v})"),
            E::Clos(p, e) => format!("\\({p}: f64) = {}", e.src()), E::Grab(e) => format!("(grab {})", e.opnd(9, true)), E::CallClos(f, e) => format!("\\{f}({})", e.src()),
            E::CallRet(m, f, a) => format!("call_ret({m}, \"{f}\", [{}])", list(a)), E::Loop(k, v, c, b) => format!("{k} {v} {} {{{}}}", c.src(), b.src()),
            E::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", c.src(), a.src(), b.src()), E::FaultNum(e) => format!("fault_num({})", e.src()), E::Q(e) => format!("{}?", e.opnd(9, true)),
            E::Link(a) => format!("link {{ {} }}", a.iter().map(|x| x.src()).collect::<Vec<_>>().join(" ")),
            E::LinkFor(v, c, a) => format!("link {v} {} {{ link {{ {} }} }}", c.src(), a.iter().map(|x| x.src()).collect::<Vec<_>>().join(" ")),
            E::Mod(t, _) => t.clone(), E::Vec4(a) => format!("({})", list(a)), E::Remove(v, e) => format!("remove(mut {v}, {})", e.src()),
            E::Sec(k, n, x) => match *k { "any" => format!("any i {n} {{ i >= {x} }}"), "all" => format!("all i {n} {{ i < {x} }}"), "min" => format!("min i {n} {{ {x} - i }}"), _ => format!("max i {n} {{ {x} + i }}") },
        }
    }
}
pub fn block(b: &[S], ind: usize, o: &mut String) { for s in b { stmt(s, ind, o); } }
fn stmt(s: &S, ind: usize, o: &mut String) {
    let p = "    ".repeat(ind);
    let lab = |l: &Option<String>| l.as_ref().map(|x| format!("'{x}: ")).unwrap_or_default();
    let to = |l: &Option<String>| l.as_ref().map(|x| format!(" '{x}")).unwrap_or_default();
    let t = match s {
        S::Let(v, e) => format!("{v} := {}", e.src()), S::ArrOp(k, v, a) => format!("{k}(mut {v}{}{})", if a.is_empty() { "" } else { ", " }, list(a)), S::Set(v, k, op, e) => format!("{v}{} {op} {}", keys(k), e.src()), S::Push(v, e) => format!("push(mut {v}, {})", e.src()),
        S::Ev(a) => format!("ev([{}])", list(a)), S::Break(l) => format!("break{}", to(l)), S::Cont(l) => format!("continue{}", to(l)),
        S::Ret(None) => "return".into(), S::Ret(Some(e)) => format!("return {}", e.src()), S::RetSet(e) => format!("return = {}", e.src()), S::Ex(e) => e.src(), S::Fault => "fault()".into(), S::Boom(t) => format!("boom(\"{t}\")"),
        S::Cur(v, e) => format!("~ {v} := {}", e.src()), S::Raw(t) => t.clone(), S::CallMod(m, f, a) => format!("call({m}, \"{f}\", [{}])", list(a)),
        S::If(c, a, b) => { *o += &format!("{p}if {} {{\n", c.src()); block(a, ind + 1, o); if !b.is_empty() { *o += &format!("{p}}} else {{\n"); block(b, ind + 1, o); } *o += &format!("{p}}}\n"); return; }
        S::For(l, v, c, b) => { *o += &format!("{p}{}for {v} {} {{\n", lab(l), c.src()); block(b, ind + 1, o); *o += &format!("{p}}}\n"); return; }
        S::Loop(l, b) => { *o += &format!("{p}{}loop {{\n", lab(l)); block(b, ind + 1, o); *o += &format!("{p}}}\n"); return; }
    };
    *o += &p; *o += &t; o.push('\n');
}
impl Fun {
    pub fn src(&self) -> String {
        let ps: Vec<String> = self.params.iter().map(|(n, t, m, lazy)| format!("{}{n}: {t}{}", if *m { "mut " } else { "" }, lazy.map(|b| format!(" => {b}")).unwrap_or_default())).collect();
        let mut o = format!("fn {}({}){}{} {{\n", self.name, ps.join(", "), if self.cur.is_empty() { String::new() } else { format!(" ~ {}", self.cur.iter().map(|(c, m)| format!("{}{c}: f64", if *m { "mut " } else { "" })).collect::<Vec<_>>().join(", ")) }, self.ret.as_ref().map(|t| format!(" -> {t}")).unwrap_or_default());
        block(&self.body, 1, &mut o);
        o += "}\n"; o
    }
}

// ---- reference model -----------------------------------------------------------------------------------------
pub enum Ctl { Err(String), Ret(Option<MV>), Break(Option<String>), Cont(Option<String>), Panic, Fuel }
type R<T> = Result<T, Ctl>;
fn er<T>(s: &str) -> R<T> { Err(Ctl::Err(s.into())) }
#[derive(Default)]
pub struct Th { slots: Vec<MV>, scopes: Vec<Vec<(String, usize)>>, cur: Vec<(String, usize)>, rets: Vec<Option<MV>>, pub label: u64 }
pub struct Model<'a> {
    pub mods: Vec<&'a HashMap<String, Fun>>,
    /// per module, the modules it imports; a name means the module's own function, else that of the latest import having it
    pub imports: Vec<Vec<usize>>,
    /// fault decisions of the observed run, per logical thread
    pub faults: HashMap<u64, Vec<bool>>, pos: HashMap<u64, usize>,
    pub events: BTreeMap<u64, Vec<MV>>, results: HashMap<u64, Result<MV, MV>>, pub fuel: i64, pub joins: u64, pub tries: u64, pub caught: u64, pub calls: u64, pub spawned: u64,
}
impl<'a> Model<'a> {
    pub fn new(mods: Vec<&'a HashMap<String, Fun>>, imports: Vec<Vec<usize>>, faults: HashMap<u64, Vec<bool>>) -> Model<'a> { Model { mods, imports, faults, pos: HashMap::new(), events: BTreeMap::new(), results: HashMap::new(), fuel: 60_000, joins: 0, tries: 0, caught: 0, calls: 0, spawned: 0 } }
    pub fn thread(&mut self, label: u64) -> Th { self.events.entry(label).or_default(); Th { label, ..Default::default() } }
    fn fault(&mut self, t: &Th) -> bool { let p = self.pos.entry(t.label).or_insert(0); let r = self.faults.get(&t.label).and_then(|v| v.get(*p)).copied().unwrap_or(false); *p += 1; r }
    fn get<'b>(t: &'b Th, mut v: &'b MV) -> &'b MV { let mut k = 0; while let MV::Ref(i) = v { v = &t.slots[*i]; k += 1; if k > 100 { panic!("model: reference cycle") } } v }
    fn slot(t: &Th, v: usize) -> usize { let mut i = v; while let MV::Ref(j) = &t.slots[i] { i = *j; } i }
    pub fn deep(t: &Th, v: &MV) -> MV {
        match v { MV::Ref(i) => Self::deep(t, &t.slots[*i]), MV::Arr(a) => MV::Arr(a.iter().map(|x| Self::deep(t, x)).collect()), MV::Obj(o) => MV::Obj(o.iter().map(|(k, x)| (k.clone(), Self::deep(t, x))).collect()), x => x.clone() }
    }
    fn look(t: &Th, v: &str) -> usize { for s in t.scopes.iter().rev() { for (n, i) in s.iter().rev() { if n == v { return *i; } if n == "\0fn" { break; } } if s.first().map_or(false, |x| x.0 == "\0fn") { break; } } panic!("model: unknown variable {v}") }
    fn decl(t: &mut Th, v: &str, x: MV) { let i = t.slots.len(); t.slots.push(x); t.scopes.last_mut().unwrap().push((v.into(), i)); }
    fn num(t: &Th, v: &MV) -> R<f64> { match Self::get(t, v) { MV::Num(x) => Ok(*x), MV::Lit(Val::Num(x)) => Ok(*x), x => panic!("model: expected number {x:?}") } }
    fn boolean(t: &Th, v: &MV) -> bool { match Self::get(t, v) { MV::Bool(x) => *x, x => panic!("model: expected bool {x:?}") } }
    fn text(t: &Th, v: &MV) -> String { match Self::get(t, v) { MV::Str(x) => x.clone(), x => panic!("model: expected text {x:?}") } }

    fn find(&self, m: usize, f: &str) -> Option<(usize, &'a Fun)> { if let Some(x) = self.mods[m].get(f) { return Some((m, x)); } for k in self.imports.get(m)?.iter().rev() { if let Some(x) = self.find(*k, f) { return Some(x); } } None }
    pub fn call(&mut self, t: &mut Th, m: usize, f: &str, args: Vec<MV>) -> R<Option<MV>> {
        let (m, fun) = match self.find(m, f) { Some(x) => x, None => return er("Could not find function") };
        self.calls += 1;
        self.fuel -= 5; if self.fuel < 0 { return Err(Ctl::Fuel); }
        let (ns, nc, nu) = (t.slots.len(), t.scopes.len(), t.cur.len());
        let mut sc = vec![("\0fn".to_string(), usize::MAX)];
        for (c, _) in &fun.cur {
            match t.cur.iter().rev().find(|x| &x.0 == c) { Some((_, i)) => { let i = *i; sc.push((c.clone(), t.slots.len())); t.slots.push(MV::Ref(i)); } None => return er("Could not find current variable") }
        }
        for (k, a) in args.into_iter().enumerate() { sc.push((fun.params[k].0.clone(), t.slots.len())); t.slots.push(a); }
        t.scopes.push(sc);
        let nr = t.rets.len(); t.rets.push(None);
        let r = self.block(t, m, &fun.body, false);
        let set = t.rets.get_mut(nr).and_then(|x| x.take()); t.rets.truncate(nr);
        let out = match r { Ok(()) => Ok(set), Err(Ctl::Ret(v)) => Ok(v), Err(e) => { return Err(e); } };
        t.scopes.truncate(nc); t.cur.truncate(nu); let _ = ns; // slots are never reused, references to them stay meaningful
        out
    }
    fn block(&mut self, t: &mut Th, m: usize, b: &[S], scope: bool) -> R<()> {
        let (nc, nu) = (t.scopes.len(), t.cur.len());
        if scope { t.scopes.push(vec![]); }
        let mut r = Ok(());
        for s in b { r = self.stmt(t, m, s); if r.is_err() { break; } }
        // An error keeps everything in place: whoever catches it cleans up.
        match &r { Ok(()) | Err(Ctl::Ret(_)) | Err(Ctl::Break(_)) | Err(Ctl::Cont(_)) => { t.scopes.truncate(nc); t.cur.truncate(nu); } _ => {} }
        r
    }
    fn target(&mut self, t: &mut Th, m: usize, v: &str, ks: &[Key]) -> R<(usize, Vec<MV>)> {
        let i = Self::slot(t, Self::look(t, v));
        let mut p = vec![];
        for k in ks { p.push(match k { Key::I(e) => { let x = self.expr(t, m, e)?; MV::Num(Self::num(t, &x)?) } Key::F(f) => MV::Str(f.clone()) }); }
        Ok((i, p))
    }
    fn stmt(&mut self, t: &mut Th, m: usize, s: &S) -> R<()> {
        self.fuel -= 1; if self.fuel < 0 { return Err(Ctl::Fuel); }
        match s {
            S::Let(v, e) => { let x = self.expr(t, m, e)?; let x = match x { MV::Ref(_) => Self::get(t, &x).clone(), x => x }; Self::decl(t, v, x); }
            S::Cur(v, e) => { let x = self.expr(t, m, e)?; let x = Self::deep(t, &x); Self::decl(t, v, x); let i = t.slots.len() - 1; t.cur.push((v.clone(), i)); }
            S::Set(v, ks, op, e) => {
                let x = self.expr(t, m, e)?;
                let x = Self::get(t, &x).clone();
                let (i, p) = self.target(t, m, v, ks)?;
                let mut val = std::mem::replace(&mut t.slots[i], MV::Joined);
                let r = Self::assign(t, &mut val, &p, op, x);
                t.slots[i] = val; r?;
            }
            S::ArrOp(k, v, a) => {
                let mut x = vec![]; for e in a { x.push(self.expr(t, m, e)?); }
                let mut n = vec![]; for (i, y) in x.iter().enumerate() { if *k == "swap" || i == 0 { n.push(Self::num(t, y)?.max(0.0) as usize); } }
                let it = if *k == "insert" { Some(Self::deep(t, &x[1])) } else { None };
                let i = Self::slot(t, Self::look(t, v));
                let MV::Arr(a) = &mut t.slots[i] else { panic!("model: {k}") };
                match *k { "insert" => if n[0] > a.len() { return er("Index out of bounds"); } else { a.insert(n[0], it.unwrap()) }, "reverse" => a.reverse(), "swap" => a.swap(n[0], n[1]), _ => a.clear() }
            }
            S::Push(v, e) => { let x = self.expr(t, m, e)?; let x = Self::deep(t, &x); let i = Self::slot(t, Self::look(t, v)); if let MV::Arr(a) = &mut t.slots[i] { a.push(x); } else { panic!("model: push") } }
            S::Ev(a) => { let mut o = vec![]; for e in a { let x = self.expr(t, m, e)?; o.push(x); } let v = Self::deep(t, &MV::Arr(o)); self.events.entry(t.label).or_default().push(v); }
            S::If(c, a, b) => { let x = self.expr(t, m, c)?; if Self::boolean(t, &x) { self.block(t, m, a, true)?; } else { self.block(t, m, b, true)?; } }
            S::For(l, v, c, b) => {
                let x = self.expr(t, m, c)?; let n = Self::num(t, &x)? as usize;
                for i in 0..n {
                    let nc = t.scopes.len(); t.scopes.push(vec![]); Self::decl(t, v, MV::Num(i as f64));
                    let r = self.block(t, m, b, true);
                    match r {
                        Ok(()) => {}
                        Err(Ctl::Break(x)) => { t.scopes.truncate(nc); if x.is_none() || x == *l { break; } return Err(Ctl::Break(x)); }
                        Err(Ctl::Cont(x)) => { if !(x.is_none() || x == *l) { t.scopes.truncate(nc); return Err(Ctl::Cont(x)); } }
                        Err(Ctl::Ret(x)) => { t.scopes.truncate(nc); return Err(Ctl::Ret(x)); }
                        Err(e) => return Err(e),
                    }
                    t.scopes.truncate(nc);
                }
            }
            S::Loop(l, b) => loop {
                self.fuel -= 1; if self.fuel < 0 { return Err(Ctl::Fuel); }
                match self.block(t, m, b, true) {
                    Ok(()) => {}
                    Err(Ctl::Break(x)) => { if x.is_none() || x == *l { break; } return Err(Ctl::Break(x)); }
                    Err(Ctl::Cont(x)) => { if !(x.is_none() || x == *l) { return Err(Ctl::Cont(x)); } }
                    Err(e) => return Err(e),
                }
            },
            S::Break(l) => return Err(Ctl::Break(l.clone())), S::Cont(l) => return Err(Ctl::Cont(l.clone())),
            S::Ret(None) => return Err(Ctl::Ret(None)),
            S::Ret(Some(e)) => { let x = self.expr(t, m, e)?; let x = Self::deep(t, &x); return Err(Ctl::Ret(Some(x))); }
            S::RetSet(e) => { let x = self.expr(t, m, e)?; let x = Self::deep(t, &x); *t.rets.last_mut().unwrap() = Some(x); }
            S::Ex(e) => { if let E::Call(f, a) = e { match self.lazy(t, m, f, a)? { Ok(_) => {} Err(a) => { self.call(t, m, f, a)?; } } } else { self.expr(t, m, e)?; } }
            S::Fault => if self.fault(t) { return er("injected fault"); },
            S::Boom(_) => return Err(Ctl::Panic),
            S::Raw(_) => {}
            S::CallMod(mv, f, a) => { self.call_mod(t, m, mv, f, a)?; }
        }
        Ok(())
    }
    fn assign(t: &Th, v: &mut MV, p: &[MV], op: &str, x: MV) -> R<()> {
        if let MV::Ref(_) = v { *v = Self::get(t, v).clone(); } // writing through a container replaces its reference by a copy
        if p.is_empty() {
            match op { "=" => *v = x, "+=" if matches!(v, MV::Str(_)) => { let (MV::Str(a), MV::Str(b)) = (&*v, &x) else { panic!("model: assign {op}") }; *v = MV::Str(format!("{a}{b}")); } _ => { let (MV::Num(a), MV::Num(b)) = (&*v, &x) else { panic!("model: assign {op}") }; *v = MV::Num(match op { "+=" => a + b, "-=" => a - b, _ => a * b }); } }
            return Ok(());
        }
        match (v, &p[0]) {
            (MV::Arr(a), MV::Num(i)) => { if *i < 0.0 || *i as usize >= a.len() { return er("Out of bounds"); } Self::assign(t, &mut a[*i as usize], &p[1..], op, x) }
            (MV::Obj(o), MV::Str(k)) if op == ":=" && p.len() == 1 => { o.insert(k.clone(), x); Ok(()) }
            (MV::Obj(o), MV::Str(k)) => match o.get_mut(k) { Some(y) => Self::assign(t, y, &p[1..], op, x), None => er("") },
            (a, b) => panic!("model: assign to {a:?} {b:?}"),
        }
    }
    fn args(&mut self, t: &mut Th, m: usize, a: &[Arg]) -> R<Vec<MV>> { let mut o = vec![]; for x in a { o.push(self.expr(t, m, &x.e)?); } Ok(o) }
    /// Arguments in order; an argument equal to a lazy invariant decides the call at once.
    fn lazy(&mut self, t: &mut Th, m: usize, f: &str, a: &[Arg]) -> R<Result<MV, Vec<MV>>> {
        let fun = match self.find(m, f) { Some(x) => x.1, None => panic!("model: unknown function {f}") };
        let mut o = vec![];
        for (k, x) in a.iter().enumerate() {
            let v = self.expr(t, m, &x.e)?;
            if let Some(b) = fun.params[k].3 { if Self::get(t, &v) == &MV::Bool(b) { return Ok(Ok(MV::Bool(b))); } }
            o.push(v);
        }
        Ok(Err(o))
    }
    fn call_mod(&mut self, t: &mut Th, m: usize, mv: &str, f: &str, a: &[E]) -> R<Option<MV>> {
        let mut o = vec![]; for x in a { o.push(self.expr(t, m, x)?); }
        let k = match Self::get(t, &MV::Ref(Self::look(t, mv))) { MV::Module(k) => *k, x => panic!("model: module {x:?}") };
        match self.find(k, f) { None => return er("Could not find function"), Some((_, fu)) => if fu.params.len() != o.len() { return er("arguments"); } }
        self.call(t, k, f, o)
    }
    pub fn expr(&mut self, t: &mut Th, m: usize, e: &E) -> R<MV> {
        self.fuel -= 1; if self.fuel < 0 { return Err(Ctl::Fuel); }
        Ok(match e {
            E::Num(x) => MV::Num(*x), E::Bool(b) => MV::Bool(*b), E::Str(s) => MV::Str(s.clone()), E::Lit(_, v) => from_val(v),
            E::V(v) => MV::Ref(Self::look(t, v)),
            E::Arr(a) => { let mut o = vec![]; for x in a { o.push(self.expr(t, m, x)?); } MV::Arr(o) }
            E::Obj(a) => { let mut o = BTreeMap::new(); for (k, x) in a { let v = self.expr(t, m, x)?; o.insert(k.clone(), v); } MV::Obj(o) }
            E::Bin(op, a, b) => {
                let x = self.expr(t, m, a)?;
                if *op == "&&" || *op == "||" { let p = Self::boolean(t, &x); if p == (*op == "||") { return Ok(MV::Bool(p)); } let y = self.expr(t, m, b)?; return Ok(MV::Bool(Self::boolean(t, &y))); }
                let x = Self::get(t, &x).clone();
                let y = self.expr(t, m, b)?;
                if let MV::Link(a) = &x { let MV::Link(b) = Self::get(t, &y).clone() else { panic!("model: link + {y:?}") }; let mut o = a.clone(); o.extend(b); return Ok(MV::Link(o)); }
                if let (MV::Vec4(a), MV::Vec4(b)) = (&x, Self::get(t, &y)) { let mut o = [0f32; 4]; for i in 0..4 { o[i] = match *op { "+" => a[i] + b[i], "-" => a[i] - b[i], _ => panic!("op {op}") }; } return Ok(MV::Vec4(o)); }
                if let MV::Bool(p) = &x { let q = Self::boolean(t, &y); return Ok(MV::Bool(match *op { "==" => *p == q, "!=" => *p != q, _ => panic!("op {op}") })); }
                if let (MV::Str(p), true) = (&x, matches!(*op, "==" | "!=")) { let q = Self::text(t, &y); return Ok(MV::Bool((*p == q) == (*op == "=="))); }
                if let MV::Str(s) = &x { let z = Self::text(t, &y); return Ok(MV::Str(format!("{s}{z}"))); }
                let (p, q) = (Self::num(t, &x)?, Self::num(t, &y)?);
                match *op { "+" => MV::Num(p + q), "-" => MV::Num(p - q), "*" => MV::Num(p * q), "<" => MV::Bool(p < q), ">" => MV::Bool(p > q), "==" => MV::Bool(p == q), "!=" => MV::Bool(p != q), _ => panic!("op {op}") }
            }
            E::Not(a) => { let x = self.expr(t, m, a)?; MV::Bool(!Self::boolean(t, &x)) }
            E::Idx(v, ks) => {
                let (i, p) = self.target(t, m, v, ks)?;
                let mut x = &t.slots[i];
                for k in &p {
                    x = Self::get(t, x);
                    x = match (x, k) { (MV::Arr(a), MV::Num(i)) => match a.get(*i as usize) { Some(y) if *i >= 0.0 => y, _ => return er("Out of bounds") }, (MV::Obj(o), MV::Str(k)) => match o.get(k) { Some(y) => y, None => return er("") }, (a, b) => panic!("model: index {a:?} {b:?}") };
                }
                x.clone()
            }
            E::Call(f, a) => { let a = match self.lazy(t, m, f, a)? { Ok(x) => return Ok(x), Err(a) => a }; match self.call(t, m, f, a)? { Some(v) => v, None => panic!("model: {f} returned nothing") } }
            E::Try(x) => {
                self.tries += 1;
                let (nc, nu) = (t.scopes.len(), t.cur.len());
                match self.expr(t, m, x) { Ok(v) => MV::Ok(Box::new(Self::deep(t, &v))), Err(Ctl::Err(s)) => { self.caught += 1; t.scopes.truncate(nc); t.cur.truncate(nu); MV::ErrT(s) } Err(c) => return Err(c) }
            }
            E::Fn1(f, x) => {
                let v = self.expr(t, m, x)?;
                let g = Self::get(t, &v).clone();
                match *f {
                    "some" => MV::Opt(Some(Box::new(Self::deep(t, &v)))), "ok" => MV::Ok(Box::new(Self::deep(t, &v))), "err" => MV::Err(Box::new(Self::deep(t, &v))), "clone" => Self::deep(t, &v),
                    "len" => match g { MV::Str(a) => MV::Num(a.len() as f64), MV::Arr(a) => MV::Num(a.len() as f64), x => panic!("model: len {x:?}") },
                    "is_ok" => MV::Bool(matches!(g, MV::Ok(_))), "is_err" => MV::Bool(matches!(g, MV::Err(_) | MV::ErrT(_))),
                    "unwrap" => match g { MV::Ok(x) => *x, MV::Opt(Some(x)) => *x, _ => return er("") },
                    "str" => match g { MV::Num(x) => MV::Str(format!("{x}")), MV::Link(a) => MV::Str(a.iter().map(|x| match x { MV::Num(x) => format!("{x}"), MV::Str(s) => s.clone(), MV::Bool(b) => b.to_string(), x => panic!("model: link item {x:?}") }).collect()), x => panic!("model: str {x:?}") },
                    "same_num" => g, "x" | "y" | "z" | "w" => { let MV::Vec4(a) = g else { panic!("model: {f} of {g:?}") }; MV::Num(a["xyzw".find(*f).unwrap()] as f64) }
                    "why" | "where" => match g { MV::Sec(_, s) => MV::Arr(s), x => panic!("model: secret {x:?}") },
                    "head" | "tip" | "tail" | "neck" | "is_empty" => { let MV::Link(a) = g else { panic!("model: {f} of {g:?}") }; match *f {
                        "head" => MV::Opt(a.first().cloned().map(Box::new)), "tip" => MV::Opt(a.last().cloned().map(Box::new)), "is_empty" => MV::Bool(a.is_empty()),
                        "tail" => MV::Link(a.into_iter().skip(1).collect()), _ => { let n = a.len().saturating_sub(1); MV::Link(a.into_iter().take(n).collect()) } } }
                    x => panic!("model: {x}"),
                }
            }
            E::Link(a) => { let mut o = vec![]; for x in a { let v = self.expr(t, m, x)?; match Self::get(t, &v).clone() { MV::Link(b) => o.extend(b), x => o.push(x) } } MV::Link(o) }
            E::LinkFor(v, c, a) => {
                let x = self.expr(t, m, c)?; let n = Self::num(t, &x)? as usize; let mut o = vec![];
                for i in 0..n { let nc = t.scopes.len(); t.scopes.push(vec![]); Self::decl(t, v, MV::Num(i as f64)); for x in a { let y = self.expr(t, m, x)?; o.push(Self::get(t, &y).clone()); } t.scopes.truncate(nc); }
                MV::Link(o)
            }
            E::Vec4(a) => { let mut o = [0f32; 4]; for (i, x) in a.iter().enumerate() { let v = self.expr(t, m, x)?; o[i] = Self::num(t, &v)? as f32; } MV::Vec4(o) }
            E::Remove(v, e) => { let x = self.expr(t, m, e)?; let n = Self::num(t, &x)?.max(0.0) as usize; let i = Self::slot(t, Self::look(t, v)); let MV::Arr(a) = &mut t.slots[i] else { panic!("model: remove") }; if n >= a.len() { return er("Index out of bounds"); } a.remove(n) }
            E::Sec(k, n, x) => match *k { "any" => MV::Sec(Box::new(MV::Bool(true)), vec![MV::Num(*x as f64)]), "all" => MV::Sec(Box::new(MV::Bool(false)), vec![MV::Num(*x as f64)]), "min" => MV::Sec(Box::new(MV::Num(*x as f64 - (*n - 1) as f64)), vec![MV::Num((*n - 1) as f64)]), _ => MV::Sec(Box::new(MV::Num((*x + *n - 1) as f64)), vec![MV::Num((*n - 1) as f64)]) },
            E::Mod(_, k) => MV::Module(*k),
            E::None => MV::Opt(None),
            E::UnwrapOr(a, b) => { let x = self.expr(t, m, a)?; match Self::get(t, &x).clone() { MV::Ok(v) | MV::Opt(Some(v)) => *v, _ => { let y = self.expr(t, m, b)?; Self::deep(t, &y) } } }
            E::Go(f, a) => {
                let a = self.args(t, m, a)?; let a: Vec<MV> = a.iter().map(|x| Self::deep(t, x)).collect();
                let label = match &a[0] { MV::Num(x) => *x as u64, x => panic!("model: thread label {x:?}") };
                let mut th = self.thread(label); self.spawned += 1;
                if self.spawned > 150 { return Err(Ctl::Fuel); } // more than the simulator has room for
                let r = match self.call(&mut th, m, f, a) { Ok(Some(v)) => Ok(Self::deep(&th, &v)), Ok(None) => panic!("model: thread without result"), Err(Ctl::Err(s)) => Err(MV::ErrT(s)), Err(Ctl::Panic) => Err(MV::ErrT("Thread did not exit successfully".into())), Err(Ctl::Fuel) => return Err(Ctl::Fuel), Err(_) => panic!("model: flow out of a thread") };
                self.results.insert(label, r);
                MV::Thread(label)
            }
            E::Join(x) => {
                let v = self.expr(t, m, x)?;
                let h = match &v { MV::Ref(i) => { let i = Self::slot(t, *i); std::mem::replace(&mut t.slots[i], MV::Joined) } x => x.clone() };
                match h { MV::Thread(l) => { self.joins += 1; match self.results[&l].clone() { Ok(v) => MV::Ok(Box::new(v)), Err(e) => e } } MV::Joined => MV::ErrT("already been invalidated".into()), x => panic!("model: join {x:?}") }
            }
            E::Pop(v) => { let i = Self::slot(t, Self::look(t, v)); let x = if let MV::Arr(a) = &mut t.slots[i] { a.pop() } else { panic!("model: pop") }; match x { Some(x) => x, None => return er("") } }
            E::Clos(p, b) => { let b = self.grab(t, m, b)?; MV::Clos(Box::new((p.clone(), b, m))) }
            E::Grab(_) => panic!("model: grab outside closure"),
            E::CallClos(f, x) => {
                let v = self.expr(t, m, x)?;
                let c = match Self::get(t, &MV::Ref(Self::look(t, f))) { MV::Clos(c) => (**c).clone(), x => panic!("model: closure {x:?}") };
                let nc = t.scopes.len();
                t.slots.push(v); let i = t.slots.len() - 1;
                t.scopes.push(vec![("\0fn".into(), usize::MAX), (c.0.clone(), i)]);
                let r = self.expr(t, c.2, &c.1)?;
                let r = Self::get(t, &r).clone();
                t.scopes.truncate(nc);
                r
            }
            E::CallRet(mv, f, a) => { match self.call_mod(t, m, mv, f, a)? { Some(v) => v, None => return er("Expected some return value") } }
            E::Loop(k, v, c, b) => {
                let x = self.expr(t, m, c)?; let n = Self::num(t, &x)? as usize;
                let mut vals = vec![]; let (mut s, mut p, mut mn, mut mx) = (0.0f64, 1.0f64, f64::NAN, f64::NAN);
                for i in 0..n {
                    let nc = t.scopes.len(); t.scopes.push(vec![]); Self::decl(t, v, MV::Num(i as f64));
                    let x = self.expr(t, m, b)?; let x = Self::deep(t, &x);
                    t.scopes.truncate(nc);
                    match *k { "sift" => vals.push(x), "any" => if Self::boolean(t, &x) { return Ok(MV::Bool(true)); }, "all" => if !Self::boolean(t, &x) { return Ok(MV::Bool(false)); },
                        _ => { let y = Self::num(t, &x)?; s += y; p *= y; if mn.is_nan() || mn > y { mn = y; } if mx.is_nan() || mx < y { mx = y; } } }
                }
                match *k { "sift" => MV::Arr(vals), "any" => MV::Bool(false), "all" => MV::Bool(true), "sum" => MV::Num(s), "prod" => MV::Num(p), "min" => MV::Num(mn), _ => MV::Num(mx) }
            }
            E::If(c, a, b) => { let x = self.expr(t, m, c)?; if Self::boolean(t, &x) { self.expr(t, m, a)? } else { self.expr(t, m, b)? } }
            E::FaultNum(x) => { let v = self.expr(t, m, x)?; let v = Self::num(t, &v)?; if self.fault(t) { return er("injected fault"); } MV::Num(v) }
            E::Q(x) => { let v = self.expr(t, m, x)?; match Self::get(t, &v).clone() { MV::Ok(x) | MV::Opt(Some(x)) => *x, MV::Opt(None) => return Err(Ctl::Ret(Some(MV::ErrT(String::new())))), e => return Err(Ctl::Ret(Some(e))) } }
        })
    }
    /// Replaces `grab` expressions by the values they have now.
    fn grab(&mut self, t: &mut Th, m: usize, e: &E) -> R<E> {
        Ok(match e {
            E::Grab(x) => { let v = self.expr(t, m, x)?; let v = Self::deep(t, &v); E::Lit(String::new(), to_val(&v)) }
            E::Bin(o, a, b) => E::Bin(o, Box::new(self.grab(t, m, a)?), Box::new(self.grab(t, m, b)?)),
            E::Fn1(f, a) => E::Fn1(f, Box::new(self.grab(t, m, a)?)),
            E::FaultNum(a) => E::FaultNum(Box::new(self.grab(t, m, a)?)),
            E::If(c, a, b) => E::If(Box::new(self.grab(t, m, c)?), Box::new(self.grab(t, m, a)?), Box::new(self.grab(t, m, b)?)),
            E::Call(f, a) => { let mut o = vec![]; for x in a { o.push(Arg { m: x.m, e: self.grab(t, m, &x.e)? }); } E::Call(f.clone(), o) }
            x => x.clone(),
        })
    }
}
pub fn from_val(v: &Val) -> MV {
    match v { Val::Vec4(x) => MV::Vec4(*x), Val::Sec(x, y) => MV::Sec(Box::new(from_val(x)), y.iter().map(from_val).collect()), Val::Num(x) => MV::Num(*x), Val::Bool(b) => MV::Bool(*b), Val::Str(s) => MV::Str(s.clone()), Val::Arr(a) => MV::Arr(a.iter().map(from_val).collect()), Val::Obj(o) => MV::Obj(o.iter().map(|(k, x)| (k.clone(), from_val(x))).collect()),
        Val::Link(a) => MV::Link(a.iter().map(from_val).collect()), Val::Opt(None) => MV::Opt(None), Val::Opt(Some(x)) => MV::Opt(Some(Box::new(from_val(x)))), Val::Ok(x) => MV::Ok(Box::new(from_val(x))), Val::Err(x) => match &**x { Val::Other(t) if t.starts_with('~') => MV::ErrT(t[1..].into()), x => MV::Err(Box::new(from_val(x))) }, x => MV::Lit(x.clone()) }
}
pub fn to_val(v: &MV) -> Val {
    match v { MV::Num(x) => Val::Num(*x), MV::Bool(b) => Val::Bool(*b), MV::Str(s) => Val::Str(s.clone()), MV::Vec4(x) => Val::Vec4(*x), MV::Arr(a) => Val::Arr(a.iter().map(to_val).collect()), MV::Obj(o) => Val::Obj(o.iter().map(|(k, x)| (k.clone(), to_val(x))).collect()),
        MV::Opt(None) => Val::Opt(None), MV::Opt(Some(x)) => Val::some(to_val(x)), MV::Ok(x) => Val::ok(to_val(x)), MV::Err(x) => Val::Err(Box::new(to_val(x))), MV::ErrT(s) => Val::Err(Box::new(Val::Other(format!("~{s}")))),
        MV::Link(a) => Val::Link(a.iter().map(to_val).collect()), MV::Clos(_) => Val::Other("closure".into()), MV::Thread(_) | MV::Joined => Val::Other("thread".into()), MV::Module(_) => Val::Other("rust_object".into()), MV::Lit(v) => v.clone(), MV::Sec(v, s) => Val::Sec(Box::new(to_val(v)), s.iter().map(to_val).collect()), MV::Ref(_) => Val::Other("REF".into()) }
}
/// Does the observed value agree with the model's?
pub fn matches(m: &MV, v: &Val) -> bool { vmatch(&to_val(m), v) }
fn vmatch(m: &Val, v: &Val) -> bool {
    match (m, v) {
        (Val::Err(a), Val::Err(b)) => if let Val::Other(t) = &**a { if let Some(t) = t.strip_prefix('~') { return if let Val::Str(s) = &**b { s.contains(t) } else { t.is_empty() }; } else { a == b } } else { vmatch(a, b) },
        (Val::Arr(a), Val::Arr(b)) | (Val::Link(a), Val::Link(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| vmatch(x, y)),
        (Val::Obj(a), Val::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && vmatch(x, y)),
        (Val::Opt(Some(a)), Val::Opt(Some(b))) | (Val::Ok(a), Val::Ok(b)) => vmatch(a, b),
        (Val::Sec(a, s), Val::Sec(b, r)) => vmatch(a, b) && s == r,
        (a, Val::Sec(b, _)) => vmatch(a, b), // the model does not follow the secrets of computed values
        (Val::Num(a), Val::Num(b)) => a == b || a.is_nan() && b.is_nan(),
        (a, b) => a == b,
    }
}
