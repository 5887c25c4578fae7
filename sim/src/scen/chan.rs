//! In-types: several threads call observed functions while receivers are opened, read, shared and dropped (C03, C04, C05).
use crate::engine::{count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg, Shm};
use crate::val::Val;
use crate::{host, lit};
use std::collections::{BTreeMap, HashMap};
use std::cell::OnceCell;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Func { name: String, callname: String, module: usize, params: usize, muta: bool, cur: u8, mcur: bool, faulty: bool, nested: Option<usize>,
    /// a module that imports the function's module calls it and opens receivers as well: it has a copy of the function
    via: bool }

/// The current objects in scope: `cur` is a number, `cu2` a list.
#[derive(Clone, Debug)]
struct Cur { a: f64, b: Vec<f64> }
impl Cur {
    fn new(a: f64) -> Cur { Cur { a, b: vec![a + 0.5] } }
    fn decl(&self, pad: &str) -> String { format!("{pad}~ cur := {}\n{pad}~ cu2 := [{}]", self.a, self.b[0]) }
}

/// A call that the program may make: what its message must contain and what it must return.
#[derive(Clone, Debug)]
struct CallSpec { f: usize, content: Val, result: f64 }

pub struct ChanPlan { module: OnceCell<Arc<dyon::Module>>, mods: Vec<String>, imports: Vec<usize>, main: String, calls: HashMap<u64, CallSpec>, rx_f: HashMap<u64, usize>, nthreads: usize, flavor: Flavor }
#[derive(Clone, Copy, PartialEq)]
pub enum Flavor { Order, Churn, Readers }

struct B<'a> { funcs: &'a [Func], calls: HashMap<u64, CallSpec>, next_id: u64, rx_f: HashMap<u64, usize>, next_rx: u64, extra: Vec<String>, var: u32 }
impl<'a> B<'a> {
    fn v(&mut self, p: &str) -> String { self.var += 1; format!("{p}{}", self.var) }
    /// Emits a call of function `f`; returns the lines.
    fn call(&mut self, r: &mut Rng, f: usize, cur: &mut Option<Cur>, pad: &str) -> Vec<String> {
        let fu = self.funcs[f].clone();
        let id = self.next_id; self.next_id += 10;
        let mut o = vec![];
        let (mut args, mut vals) = (vec![], vec![]);
        let mut after = vec![];
        let idsrc = format!("{id}");
        for k in 0..fu.params {
            if k == 0 && !fu.muta || k == 1 && fu.muta { args.push(idsrc.clone()); vals.push(Val::Num(id as f64)); continue; }
            if k == 0 {
                // a mutable argument: the function appends to it after the message was sent
                let (t, v) = lit::any(r, 1); let a = self.v("m");
                o.push(format!("{pad}{a} := [{t}]")); args.push(format!("mut {a}")); vals.push(Val::Arr(vec![v]));
                continue;
            }
            match r.below(5) {
                0 | 1 => { let (t, v) = lit::any(r, 2); args.push(t); vals.push(v); }
                2 => { // a variable changed right after the call
                    let (t, v) = lit::any(r, 2); let a = self.v("p"); o.push(format!("{pad}{a} := [{t}]")); args.push(a.clone()); vals.push(Val::Arr(vec![v])); after.push(format!("{pad}push(mut {a}, 99999)")); }
                3 => { // an array whose elements refer to a local variable
                    let (t, v) = lit::any(r, 1); let a = self.v("p"); let b = self.v("q");
                    o.push(format!("{pad}{a} := [{t}]")); o.push(format!("{pad}{b} := [{a}, {{x: {a}}}]"));
                    let av = Val::Arr(vec![v]); let mut m = BTreeMap::new(); m.insert("x".to_string(), av.clone());
                    args.push(b); vals.push(Val::Arr(vec![av, Val::Obj(m)])); after.push(format!("{pad}push(mut {a}, 99999)")); }
                _ => { let x = r.below(50) as f64; let a = self.v("p"); o.push(format!("{pad}{a} := {x}")); args.push(format!("{a} + 1")); vals.push(Val::Num(x + 1.0)); after.push(format!("{pad}{a} = -5")); }
            }
        }
        let mut res = id as f64 * 2.0;
        if fu.cur > 0 {
            let c = cur.as_mut().unwrap();
            // current objects change between calls; a message has their values at the time of its call
            if r.chance(1, 3) { c.a = r.below(99) as f64; o.push(format!("{pad}cur = {}", c.a)); }
            vals.push(Val::Num(c.a));
            if fu.cur > 1 {
                if r.chance(1, 3) { let x = r.below(99) as f64; c.b.push(x); o.push(format!("{pad}push(mut cu2, {x})")); }
                vals.push(Val::Arr(c.b.iter().map(|x| Val::Num(*x)).collect()));
                if r.chance(1, 3) { c.b[0] += 1.0; after.push(format!("{pad}cu2[0] += 1")); }
            }
            if fu.mcur { c.a += 1.0; }
            res += c.a;
        }
        self.calls.insert(id, CallSpec { f, content: Val::Arr(vals), result: res });
        if let Some(n) = fu.nested { let x = self.funcs[n].clone(); if x.params == 1 { self.calls.insert(id + 1, CallSpec { f: n, content: Val::Arr(vec![Val::Num((id + 1) as f64)]), result: (id + 1) as f64 * 2.0 }); } }
        let rv = self.v("r");
        o.push(format!("{pad}ev([\"i\", {id}])"));
        let call = format!("{}{}({})", if fu.via && r.chance(1, 2) { "via_" } else { "" }, fu.callname, args.join(", "));
        let go = fu.cur == 0 && !fu.muta && r.chance(1, 7);
        if go {
            let t = self.v("t");
            o.push(format!("{pad}{t} := go {call}"));
            o.append(&mut after);
            if r.chance(1, 2) { o.push(format!("{pad}yieldp()")); }
            o.push(format!("{pad}{rv} := join(thread: {t})"));
            o.push(format!("{pad}ev([\"r\", {id}, {rv}])"));
        } else if fu.faulty || r.chance(1, 8) {
            o.push(format!("{pad}{rv} := try {call}"));
            o.append(&mut after);
            o.push(format!("{pad}ev([\"r\", {id}, {rv}])"));
        } else {
            o.push(format!("{pad}{rv} := {call}"));
            o.append(&mut after);
            o.push(format!("{pad}ev([\"r\", {id}, {rv}])"));
        }
        o
    }
    fn open(&mut self, f: usize, pad: &str, target: &str) -> (Vec<String>, u64) {
        let rid = self.next_rx; self.next_rx += 1; self.rx_f.insert(rid, f);
        let via = self.funcs[f].via && rid % 2 == 1;
        let e = if self.funcs[f].module == 0 { format!("in {}", self.funcs[f].name) } else { format!("{}open_{}()", if via { "via_" } else { "" }, self.funcs[f].name) };
        (vec![format!("{pad}ev([\"o<\", {rid}])"), format!("{pad}{target} := {e}"), format!("{pad}ev([\"o>\", {rid}])")], rid)
    }
    fn next(&mut self, rx: &str, rid: u64, pad: &str) -> Vec<String> { let m = self.v("x"); vec![format!("{pad}ev([\"n<\", {rid}])"), format!("{pad}{m} := next({rx})"), format!("{pad}ev([\"n>\", {rid}, {m}])")] }
    fn wait(&mut self, rx: &str, rid: u64, pad: &str) -> Vec<String> { let m = self.v("x"); vec![format!("{pad}ev([\"w<\", {rid}])"), format!("{pad}{m} := wait_next({rx})"), format!("{pad}ev([\"w>\", {rid}, {m}])")] }
    fn floop(&mut self, rx: &str, rid: u64, pad: &str, brk: bool) -> Vec<String> {
        let mut o = vec![format!("{pad}ev([\"n<\", {rid}])"), format!("{pad}for m in {rx} {{"), format!("{pad}    ev([\"l\", {rid}, m])")];
        if brk { o.push(format!("{pad}    break")); }
        o.push(format!("{pad}}}")); o.push(if brk { format!("{pad}ev([\"lb\", {rid}])") } else { format!("{pad}ev([\"le\", {rid}])") });
        o
    }
    /// A scope that opens receivers of its own, uses them and drops them on return.
    fn session(&mut self, r: &mut Rng, mut curv: Option<Cur>, first: Option<usize>) -> String {
        let name = format!("s{}", self.extra.len());
        let mut b = vec![];
        let usable: Vec<usize> = (0..self.funcs.len()).collect();
        let mut rxs: Vec<(String, u64, usize, i64)> = vec![]; // (variable, id, function, guaranteed - read)
        if let Some(c) = &curv { b.push(c.decl("    ")); }
        if let Some(f) = first {
            let v = self.v("rx"); let (l, id) = self.open(f, "    ", &v); b.extend(l); rxs.push((v, id, f, 0));
            if self.funcs[f].cur == 0 || curv.is_some() { b.extend(self.call(r, f, &mut curv, "    ")); rxs[0].3 += 1; }
        }
        if first.is_none() && r.chance(1, 8) { let f = *r.pick(&usable); for _ in 0..r.range(3, 6) { let v = self.v("rx"); let (l, id) = self.open(f, "    ", &v); b.extend(l); rxs.push((v, id, f, 0)); } }
        for _ in 0..r.range(2, 7) {
            match if rxs.is_empty() { 0 } else { r.weighted(&[2, 6, 3, 2, 3, 1]) } {
                0 => { let f = *r.pick(&usable); let v = self.v("rx"); let (l, id) = self.open(f, "    ", &v); b.extend(l); rxs.push((v, id, f, 0)); }
                1 => { let k = r.below(rxs.len()); let f = if r.chance(3, 4) { rxs[k].2 } else { *r.pick(&usable) };
                    if self.funcs[f].cur > 0 && curv.is_none() { continue; }
                    b.extend(self.call(r, f, &mut curv, "    "));
                    let nest = self.funcs[f].nested;
                    for x in rxs.iter_mut() { if x.2 == f { x.3 += 1; } if Some(x.2) == nest && !self.funcs[f].faulty { x.3 += 1; } } }
                2 => { let k = r.below(rxs.len()); b.extend(self.next(&rxs[k].0.clone(), rxs[k].1, "    ")); rxs[k].3 -= 1; }
                3 => { let k = r.below(rxs.len()); if rxs[k].3 > 0 { b.extend(self.wait(&rxs[k].0.clone(), rxs[k].1, "    ")); rxs[k].3 -= 1; } }
                4 => { let k = r.below(rxs.len()); let brk = r.chance(1, 3); b.extend(self.floop(&rxs[k].0.clone(), rxs[k].1, "    ", brk)); rxs[k].3 = -1000; }
                _ => b.push("    yieldp()".into()),
            }
        }
        if r.chance(1, 4) { b.push("    sleep(0.0001)".into()); }
        self.extra.push(format!("fn {name}() {{\n{}\n}}", b.join("\n")));
        name
    }
}

fn make(g: &mut Gen, flavor: Flavor) -> Box<dyn Plan> {
    let nf = g.r.range(1, 3);
    let two_mods = g.r.chance(2, 5);
    let via = two_mods && g.r.chance(1, 2);
    let mut funcs: Vec<Func> = vec![];
    for i in 0..nf {
        let muta = false; // functions with mutable arguments cannot be observed
        let params = if muta { 2 } else { g.r.range(1, 3) };
        let cur = if g.r.chance(1, 3) { g.r.range(1, 2) as u8 } else { 0 };
        // same-named functions in two modules
        let module = if two_mods && i == nf - 1 { 1 } else { 0 };
        funcs.push(Func { name: format!("f{i}"), callname: format!("f{i}"), module, params, muta, cur, mcur: g.r.chance(1, 3), faulty: g.r.chance(1, 5), nested: None, via: module == 1 && via });
    }
    if nf > 1 && g.r.chance(1, 2) && funcs[0].params == 1 && funcs[0].cur == 0 && !funcs[0].faulty && funcs[0].module == 0 { let k = nf - 1; if k != 0 && funcs[k].module == 0 { funcs[k].nested = Some(0); } }
    // same-named functions in two modules: their receivers must not mix
    if two_mods && nf > 1 && g.r.chance(2, 3) { for k in [0, nf - 1] { if !(k == 0 && funcs[nf - 1].nested.is_some()) { funcs[k].name = "dup".into(); funcs[k].callname = if k == 0 { "dup".into() } else { "call_dup".into() }; if k > 0 { funcs[k].muta = false; } } } }
    let fsrc = |f: &Func, nm: &str, extra: &str| {
        let mut ps = vec![];
        for k in 0..f.params { if f.muta { ps.push(if k == 0 { "mut p0: []".into() } else { "id: f64".to_string() }); } else { ps.push(if k == 0 { "id: f64".to_string() } else { format!("p{k}: any") }); } }
        let mut b = String::new();
        b += &format!("fn {}({}){} -> f64 {{\n    ev([\"b\", id{extra}])\n", nm, ps.join(", "), match (f.cur, f.mcur) { (0, _) => "", (1, false) => " ~ cur: f64", (1, true) => " ~ mut cur: f64", (_, false) => " ~ cur: f64, cu2: [f64]", _ => " ~ mut cur: f64, cu2: [f64]" });
        if f.muta { b += "    push(mut p0, 77777)\n"; }
        if let Some(n) = f.nested { b += &format!("    ev([\"i\", id + 1])\n    z := f{n}(id + 1)\n    ev([\"r\", id + 1, z])\n"); }
        if f.cur > 0 && f.mcur { b += "    cur = cur + 1\n"; }
        if f.faulty { b += "    fault()\n"; }
        b += &format!("    return id * 2{}\n}}\n", if f.cur > 0 { " + cur" } else { "" });
        b
    };
    let mut mods = vec![];
    let mut main = String::new();
    if two_mods {
        // module 1 is imported; it has decoys with the same names as functions of the main module
        let mut m1 = String::new();
        for f in &funcs {
            if f.module == 1 { m1 += &fsrc(f, &f.name, ""); m1 += &format!("fn open_{0}() -> in[[]] {{ return in {0} }}\n", f.name);
                if f.callname != f.name { let ps: Vec<String> = (0..f.params).map(|k| if k == 0 { "id: f64".into() } else { format!("p{k}: any") }).collect(); let ar: Vec<String> = (0..f.params).map(|k| if k == 0 { "id".into() } else { format!("p{k}") }).collect();
                    m1 += &format!("fn {}({}) -> f64 {{ return {}({}) }}\n", f.callname, ps.join(", "), f.name, ar.join(", ")); } }
        }
        mods.push(m1);
        if via { let mut m2 = String::new();
            for f in &funcs { if f.via {
                let ps: Vec<String> = (0..f.params).map(|k| if k == 0 { "id: f64".into() } else { format!("p{k}: any") }).collect(); let ar: Vec<String> = (0..f.params).map(|k| if k == 0 { "id".into() } else { format!("p{k}") }).collect();
                m2 += &format!("fn via_{0}({1}) -> f64 {{ return {0}({2}) }}\nfn via_open_{3}() -> in[[]] {{ return {4} }}\n", f.callname, ps.join(", "), ar.join(", "), f.name, if g.r.chance(1, 2) { format!("in {}", f.name) } else { format!("open_{}()", f.name) });
            } }
            mods.push(m2); } else {}
    }
    let imports = if via && g.r.chance(1, 2) { vec![1, 0] } else { (0..mods.len()).collect() };
    for f in &funcs { if f.module == 0 { main += &fsrc(f, &f.name, ""); } }
    let mut b = B { funcs: &funcs, calls: HashMap::new(), next_id: 100, rx_f: HashMap::new(), next_rx: 0, extra: vec![], var: 0 };
    // --- threads -----------------------------------------------------------------------------------------
    let (ncall, nread) = match flavor { Flavor::Order => (g.r.range(1, 4), g.r.below(2)), Flavor::Churn => (g.r.range(1, 3), 0), Flavor::Readers => (g.r.range(1, 3), g.r.range(1, 3)) };
    let mut curs: Vec<Option<Cur>> = (0..=ncall + nread).map(|_| if g.r.chance(2, 3) { Some(Cur::new(g.r.below(100) as f64)) } else { None }).collect();
    let mut guaranteed = vec![0i64; nf];  // calls of each function made for certain by caller threads
    let mut thr_src = vec![];
    // threads that open receivers of one function at the same time, when nobody else listens
    let race = flavor != Flavor::Readers && ncall > 1 && g.r.chance(1, 3);
    let rf = g.r.below(nf);
    for t in 1..=ncall {
        let mut body = vec![];
        if let Some(c) = &curs[t] { body.push(c.decl("    ")); }
        if race { let mut r = g.r.fork(); let cv = if funcs[rf].cur > 0 { Some(Cur::new(5.0)) } else { None }; let s = b.session(&mut r, cv, Some(rf)); body.push(format!("    {s}()")); body.push("    ev([\"dropped\"])".into()); }
        let n = match flavor { Flavor::Churn => g.r.range(2, 5), _ => g.r.range(2, 6) };
        for mut r in g.items(n) {
            if flavor == Flavor::Churn && r.chance(3, 5) || r.chance(1, 9) { let cv = if r.chance(1, 2) { Some(Cur::new(5.0)) } else { None }; let s = b.session(&mut r, cv, None); body.push(format!("    {s}()")); body.push("    ev([\"dropped\"])".into()); continue; }
            if r.chance(1, if flavor == Flavor::Readers { 5 } else { 10 }) { body.push(format!("    sleep({})", *r.pick(&["0.0002", "0.0002", "0.02", "0.6", "7", "100", "4000"]))); continue; }
            let f = r.below(nf);
            if funcs[f].cur > 0 && curs[t].is_none() { continue; }
            body.extend(b.call(&mut r, f, &mut curs[t], "    "));
            guaranteed[f] += 1;
            if let Some(n) = funcs[f].nested { guaranteed[n] += 1; }
        }
        thr_src.push(format!("fn w{t}() -> f64 {{\n{}\n    return {t}\n}}", body.join("\n")));
    }
    // --- main: receivers opened before the threads start ---------------------------------------------------
    let mut m = vec![];
    if let Some(c) = &curs[0] { m.push(c.decl("    ")); }
    let mut rxs: Vec<(String, u64, usize, i64)> = vec![];
    let nrx = match flavor { Flavor::Order => g.r.range(1, 4), Flavor::Churn => g.r.range(0, 2), Flavor::Readers => g.r.range(1, 3) };
    let nrx = if race && g.r.chance(2, 3) { 0 } else if g.r.chance(1, 8) { g.r.range(5, 9) } else { nrx };
    for mut r in g.items(nrx + 2) {
        if rxs.len() < nrx && r.chance(3, 4) { let f = r.below(nf); let v = b.v("rx"); let (l, id) = b.open(f, "    ", &v); m.extend(l); rxs.push((v, id, f, 0)); }
        else { let f = r.below(nf); if funcs[f].cur > 0 && curs[0].is_none() { continue; } m.extend(b.call(&mut r, f, &mut curs[0], "    "));
            for x in rxs.iter_mut() { if x.2 == f { x.3 += 1; } } }
    }
    for x in rxs.iter_mut() { x.3 += guaranteed[x.2]; }
    let mut starts = vec![];
    for t in 1..=ncall { starts.push(format!("    t{t} := go w{t}()")); }
    // --- readers: get receivers from main; shared ones only through wait_next with a budget ------------------------
    let mut shared: Vec<bool> = vec![false; rxs.len()];
    // either all readers of a receiver wait, or none does (see the known finding of C05)
    let polled: Vec<bool> = rxs.iter().map(|_| g.r.chance(1, 2)).collect();
    let mut rd = vec![];
    if !rxs.is_empty() {
        for k in 0..nread {
            let t = ncall + 1 + k;
            let i = g.r.below(rxs.len());
            let other_reader = shared[i];
            shared[i] = true;
            let mut body = vec![];
            let rid = rxs[i].1;
            let mut only_wait = true;
            // only the first reader may mix in next and loops, and then nobody else reads concurrently
            let solo = !other_reader && nread == 1;
            if polled[i] && nread > 1 {
                for mut r in g.items(4) {
                    match r.below(5) { 0 => body.push("    yieldp()".into()), 1 => { let brk = r.chance(1, 2); body.extend(b.floop("rx", rid, "    ", brk)); } _ => body.extend(b.next("rx", rid, "    ")) }
                }
                rxs[i].3 = -1000;
            } else { for mut r in g.items(3) {
                if only_wait && rxs[i].3 > 0 && r.chance(3, 4) { body.extend(b.wait("rx", rid, "    ")); rxs[i].3 -= 1; }
                else if solo { only_wait = false; if r.chance(1, 2) { body.extend(b.next("rx", rid, "    ")); } else { let brk = r.chance(1, 3); body.extend(b.floop("rx", rid, "    ", brk)); } rxs[i].3 = -1000; }
                else if r.chance(1, 2) { body.push("    yieldp()".into()); }
            } }
            rd.push(format!("fn w{t}(rx: in[[]]) -> f64 {{\n{}\n    return {t}\n}}", body.join("\n")));
            starts.push(format!("    t{t} := go w{t}({})", rxs[i].0));
        }
    }
    m.extend(starts);
    let nt = ncall + rd.len();
    // main works while the threads run
    let nb = g.r.below(5);
    for mut r in g.items(nb) {
        match r.weighted(&[3, 3, 2, 2, 1, 2]) {
            0 => { let f = r.below(nf); if funcs[f].cur > 0 && curs[0].is_none() { continue; } m.extend(b.call(&mut r, f, &mut curs[0], "    ")); }
            1 | 2 | 3 if !rxs.is_empty() => {
                let k = r.below(rxs.len()); if shared[k] { continue; }
                let (v, id) = (rxs[k].0.clone(), rxs[k].1);
                match r.below(3) { 0 => { m.extend(b.next(&v, id, "    ")); rxs[k].3 -= 1; } 1 => if rxs[k].3 > 0 { m.extend(b.wait(&v, id, "    ")); rxs[k].3 -= 1; }, _ => { let brk = r.chance(1, 3); m.extend(b.floop(&v, id, "    ", brk)); rxs[k].3 = -1000; } }
            }
            4 => { let s = b.session(&mut r, None, None); m.push(format!("    {s}()")); }
            _ => m.push(format!("    sleep({})", *r.pick(&["0.0001", "0.0001", "0.05", "3", "70", "900"]))),
        }
    }
    for t in 1..=nt { m.push(format!("    j{t} := join(thread: t{t})")); m.push(format!("    ev([\"j\", {t}, j{t}])")); }
    // a receiver opened after the others may have been dropped
    if g.r.chance(1, 2) { let f = g.r.below(nf); if funcs[f].cur == 0 { let v = b.v("rx"); let (l, id) = b.open(f, "    ", &v); m.extend(l); let mut r = g.r.fork(); m.extend(b.call(&mut r, f, &mut None, "    ")); rxs.push((v, id, f, 0)); } }
    for x in rxs.clone() { m.extend(b.floop(&x.0, x.1, "    ", false)); }
    m.push("    ev([\"end\"])".into());
    for e in &b.extra { main += e; main += "\n"; }
    for e in thr_src.iter().chain(rd.iter()) { main += e; main += "\n"; }
    main += &format!("fn main() {{\n{}\n}}\n", m.join("\n"));
    main += "fn quiesce() {\n    ~ cur := 1\n    ~ cu2 := [1]\n";
    for (k, f) in funcs.iter().enumerate() { main += &format!("    q{k} := try {}({})\n", f.callname, (0..f.params).map(|i| format!("{i}")).collect::<Vec<_>>().join(", ")); }
    main += "}\nfn hold() -> any {\n";
    for (k, f) in funcs.iter().enumerate() { main += &format!("    h{k} := {}\n", if f.module == 0 { format!("in {}", f.name) } else { format!("open_{}()", f.name) }); }
    main += &format!("    return clone([{}])\n}}\n", (0..funcs.len()).map(|k| format!("h{k}")).collect::<Vec<_>>().join(", "));
    Box::new(ChanPlan { module: OnceCell::new(), mods, imports, main, calls: b.calls, rx_f: b.rx_f, nthreads: nt, flavor })
}
pub fn order(g: &mut Gen) -> Box<dyn Plan> { make(g, Flavor::Order) }
pub fn churn(g: &mut Gen) -> Box<dyn Plan> { make(g, Flavor::Churn) }
pub fn readers(g: &mut Gen) -> Box<dyn Plan> { make(g, Flavor::Readers) }

impl ChanPlan {
    fn load(&self) -> Result<dyon::Module, String> {
        let mut ms: Vec<dyon::Module> = vec![];
        for (i, x) in self.mods.iter().enumerate() {
            let mut a = host::base(); if i > 0 { a.import(&ms[0]); }
            dyon::load_str(&format!("mod{i}.dyon"), Arc::new(x.clone()), &mut a).map_err(|e| e.to_string())?; ms.push(a);
        }
        let mut m = host::base();
        for i in &self.imports { m.import(&ms[*i]); }
        dyon::load_str("main.dyon", Arc::new(self.main.clone()), &mut m).map_err(|e| e.to_string())?;
        Ok(m)
    }
}
impl Plan for ChanPlan {
    fn describe(&self) -> String { let mut s = String::new(); for (i, m) in self.mods.iter().enumerate() { s += &format!("// module {i}\n{m}\n"); } s += "// main module\n"; s += &self.main; s }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, _p: &Probe) { if r.chance(1, 2) { c.pf[sim::F_HOST] = 12000; } }
    fn setup(&self) -> Result<(), String> { let _ = self.module.set(Arc::new(self.load().map_err(|e| format!("module does not load|{e}"))?)); Ok(()) }
    fn exec(&self) {
        let m = self.load().unwrap();
        super::memory::exec(m);
    }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> {
        let mut rt = dyon::Runtime::new();
        sim::explore(true);
        let r = rt.run(self.module.get().unwrap());
        sim::explore(false);
        if let Err(e) = r { return Err(format!("program failed|{e}")); }
        self.judge(s)
    }
}

struct Read { rid: u64, tid: u32, inv: usize, resp: usize, msg: Option<Val>, by: char }

impl ChanPlan {
    fn judge(&self, s: &mut Shm) -> Result<(), String> {
        let evs = host::events();
        let hist = || { let mut o = String::new(); for (i, e) in host::events().iter().enumerate() { o += &format!("\n  {i}: T{} {}", e.tid, e.v.render()); } o };
        let mut inv: HashMap<u64, usize> = HashMap::new(); let mut body: HashMap<u64, usize> = HashMap::new(); let mut ret: HashMap<u64, usize> = HashMap::new();
        let mut open: HashMap<u64, (usize, usize)> = HashMap::new();
        let mut reads: Vec<Read> = vec![];
        let mut pend: HashMap<(u32, u64), usize> = HashMap::new();
        let mut ended = false;
        for (i, e) in evs.iter().enumerate() {
            let a = match e.v.arr() { Some(a) if !a.is_empty() => a, _ => return Err(format!("strange event|{}", e.v.render())) };
            let k = a[0].as_str().unwrap_or("");
            let n = a.get(1).and_then(|x| x.num()).unwrap_or(-1.0) as u64;
            match k {
                "i" => { inv.insert(n, i); }
                "b" => { if body.insert(n, i).is_some() { return Err(format!("body ran twice|call {n}{}", hist())); } }
                "r" => {
                    ret.insert(n, i);
                    let spec = self.calls.get(&n).ok_or("unknown call")?;
                    let want = Val::Num(spec.result);
                    let got = &a[2];
                    let okw = got == &want || got == &Val::ok(want.clone()) || (matches!(got, Val::Err(_)) && host::faults().iter().any(|f| f.1));
                    if !okw { return Err(format!("call of an observed function gave a wrong result|call {n} returned {} instead of {}{}", got.render(), want.render(), hist())); }
                }
                "o<" => { open.insert(n, (i, usize::MAX)); }
                "o>" => { open.get_mut(&n).ok_or("open")?.1 = i; }
                "n<" | "w<" => { pend.insert((e.tid, n), i); }
                "n>" | "w>" => {
                    let v = pend.get(&(e.tid, n)).copied().ok_or("read without start")?;
                    let msg = match &a[2] { Val::Opt(None) => None, Val::Opt(Some(m)) => Some((**m).clone()), x => return Err(format!("strange read result|{}", x.render())) };
                    reads.push(Read { rid: n, tid: e.tid, inv: v, resp: i, msg, by: if k == "n>" { 'n' } else { 'w' } });
                }
                "l" => { let v = pend.insert((e.tid, n), i).ok_or("loop without start")?; reads.push(Read { rid: n, tid: e.tid, inv: v, resp: i, msg: Some(a[2].clone()), by: 'l' }); }
                "le" => { let v = pend.get(&(e.tid, n)).copied().ok_or("loop without start")?; reads.push(Read { rid: n, tid: e.tid, inv: v, resp: i, msg: None, by: 'l' }); }
                "j" => { if a[2] != Val::ok(Val::Num(n as f64)) { return Err(format!("thread failed|join of thread {n} gave {}{}", a[2].render(), hist())); } }
                "end" => ended = true,
                _ => {}
            }
        }
        if !ended { return Err(format!("main function did not finish|{}", hist())); }
        // Content: every message is exactly the argument list of a call of the right function.
        let mut edges: Vec<(u64, u64, String)> = vec![];
        let rids: Vec<u64> = { let mut v: Vec<u64> = open.keys().copied().collect(); v.sort(); v };
        let mut checked = 0u64;
        for &rid in &rids {
            let f = self.rx_f[&rid];
            let (o1, o2) = open[&rid];
            let mut got: HashMap<u64, usize> = HashMap::new(); // call -> index of read
            let rs: Vec<&Read> = reads.iter().filter(|r| r.rid == rid).collect();
            let mut ids: Vec<Option<u64>> = vec![];
            for (k, r) in rs.iter().enumerate() {
                let m = match &r.msg { None => { ids.push(None); continue; } Some(m) => m };
                let id = m.arr().and_then(|a| a.iter().filter_map(|x| x.num()).find(|x| { let id = *x as u64; *x >= 100.0 && self.calls.get(&id).map_or(false, |c| c.content == *m) })).map(|x| x as u64);
                let id = match id { Some(i) => i, None => {
                    let raw = m.arr().and_then(|a| a.iter().filter_map(|x| x.num()).find(|x| self.calls.contains_key(&(*x as u64)))).map(|x| x as u64);
                    return Err(match raw { Some(c) => format!("message differs from the call's arguments|receiver {rid} got {} for call {c} with arguments {}{}", m.render(), self.calls[&c].content.render(), hist()), None => format!("message from nowhere|receiver {rid} got {}{}", m.render(), hist()) }); } };
                if self.calls[&id].f != f { return Err(format!("message of another function|receiver {rid} of f{f} got {}{}", m.render(), hist())); }
                if !inv.contains_key(&id) || inv[&id] > r.resp { return Err(format!("message before its call|receiver {rid} call {id}{}", hist())); }
                if got.insert(id, k).is_some() { return Err(format!("message delivered twice|receiver {rid} call {id}{}", hist())); }
                if let Some(&bi) = body.get(&id) { if bi < o1 { return Err(format!("message of an earlier call|receiver {rid} was opened after call {id} had been sent{}", hist())); } }
                ids.push(Some(id)); checked += 1;
            }
            // Order within one reader and between reads that do not overlap.
            for (k, r) in rs.iter().enumerate() { if let Some(a) = ids[k] { for (j, q) in rs.iter().enumerate() { if let Some(b2) = ids[j] { if j != k && (r.resp <= q.inv) { edges.push((a, b2, format!("receiver {rid}"))); } } } } let _ = r; }
            // Completeness.
            let must: Vec<u64> = inv.iter().filter(|(c, i)| self.calls.get(c).map_or(false, |x| x.f == f) && **i > o2).map(|(c, _)| *c).collect();
            for (k, r) in rs.iter().enumerate() {
                match ids[k] {
                    None => {
                        // Nothing was waiting: every call sent before this read began must have been taken by a read that began before it ended.
                        for c in &must { if let Some(&bi) = body.get(c) { if bi < r.inv { let taken = got.get(c).map_or(false, |j| rs[*j].inv < r.resp);
                            if !taken {
                                let what = if got.contains_key(c) { "next returned none although a message was waiting" } else { "message lost" };
                                return Err(format!("{what}|receiver {rid} opened at {o2}: call {c} was sent before event {} but the read at {} found nothing{}", r.inv, r.resp, hist())); } } } }
                        if r.by == 'w' { return Err(format!("wait_next returned none while calls are possible|receiver {rid}{}", hist())); }
                    }
                    Some(a) => {
                        for c in &must { if *c != a { if let Some(&bi) = body.get(c) { if inv.get(&a).map_or(false, |ia| bi < *ia) {
                            // c was sent before a was called: it must have been taken before
                            let ok = got.get(c).map_or(false, |j| rs[*j].inv < r.resp);
                            if !ok { return Err(format!("{}|receiver {rid}: call {a} was read at {} but the earlier call {c} was not{}", if got.contains_key(c) { "messages out of order" } else { "message lost" }, r.resp, hist())); }
                        } } } }
                    }
                }
            }
        }
        // One common order: receivers' orders and real-time order together have no cycle.
        let nodes: Vec<u64> = { let mut v: Vec<u64> = inv.keys().copied().collect(); v.sort(); v };
        for a in &nodes { if let Some(&ba) = body.get(a) { for c in &nodes { if a != c && self.calls.get(a).map(|x| x.f) == self.calls.get(c).map(|x| x.f) && ba < inv[c] { edges.push((*a, *c, "real time".into())); } } } }
        let mut indeg: HashMap<u64, usize> = nodes.iter().map(|x| (*x, 0)).collect();
        let mut adj: HashMap<u64, Vec<u64>> = HashMap::new();
        for (a, c, _) in &edges { adj.entry(*a).or_default().push(*c); *indeg.entry(*c).or_insert(0) += 1; indeg.entry(*a).or_insert(0); }
        let mut q: Vec<u64> = indeg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect(); let mut seen = 0;
        while let Some(x) = q.pop() { seen += 1; for y in adj.get(&x).cloned().unwrap_or_default() { let d = indeg.get_mut(&y).unwrap(); *d -= 1; if *d == 0 { q.push(y); } } }
        if seen != indeg.len() { return Err(format!("messages out of order|the receivers' orders and the order of the calls contradict each other{}", hist())); }
        count(s, "messages_checked", checked); count(s, "receivers_opened", rids.len() as u64); count(s, "oracle_checks", edges.len() as u64); count(s, "threads_joined", self.nthreads as u64);
        let _ = (self.flavor == Flavor::Order, &ret, reads.iter().map(|r| r.tid).max());
        Ok(())
    }
}
