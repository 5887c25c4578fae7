//! Loops over in-types (C06): every loop form, every way out, with and without concurrent senders and readers.
use crate::engine::{count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg, Shm};
use crate::val::Val;
use crate::host;
use std::cell::OnceCell;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
struct L { id: u64, kind: &'static str, label: bool, outer: u32, cont: Option<(u64, u64, bool)>, brk: Option<(u64, u64, bool)>, ret: Option<(u64, u64)>, fault: bool, val: usize, inner: Option<Box<L>>, lab: Option<(u64, u64, bool)>, up: Option<(u64, u64, bool, u64)>, loc: bool, shadow: bool, mid: bool }
struct Reader { loops: Vec<L>, main: bool }
pub struct LoopPlan { src: String, readers: Vec<Reader>, msgs: HashMap<u64, Val>, module: OnceCell<Arc<dyon::Module>>, order: Option<Vec<u64>> }

const KINDS: [&str; 9] = ["for", "sum", "prod", "min", "max", "sift", "any", "all", "link"];
fn gen_loop(r: &mut Rng, next: &mut u64, depth: u32) -> L {
    let id = *next; *next += 1;
    let kind = *r.pick(&KINDS);
    let label = depth == 0 && kind == "for" && r.chance(1, 2);
    let c = |r: &mut Rng| { let p = r.range(2, 5) as u64; (p, r.below(p as usize) as u64) };
    let lk = kind == "link";
    let cont = if r.chance(1, 3) { let (a, b) = c(r); Some((a, b, label && r.chance(1, 2))) } else { None };
    let brk = if r.chance(2, 5) { let (a, b) = c(r); Some((a + 1, b, label && r.chance(1, 2))) } else { None };
    let ret = if depth == 0 && r.chance(1, 5) { let (a, b) = c(r); Some((a + 2, b)) } else { None };
    let mut inner = if depth == 0 && !lk && r.chance(1, 4) { Some(Box::new(gen_loop(r, next, 1))) } else { None };
    // ways out of this loop by its own label, from a counted loop or from an in-loop inside it
    let lab = if r.chance(1, 4) { let (a, b) = c(r); Some((a, b, r.chance(1, 2))) } else { None };
    if let Some(i) = &mut inner { if i.kind == "for" && r.chance(1, 2) { let (a, b) = c(r); i.up = Some((a, b, r.chance(1, 2), id)); } }
    L { id, kind, label, outer: if label { r.range(1, 3) as u32 } else { 1 }, cont, brk, ret, fault: r.chance(1, 4), val: r.below(if matches!(kind, "any" | "all" | "min" | "max") { 4 } else { 3 }), inner, lab, up: None, loc: r.chance(1, 2), shadow: r.chance(1, 2), mid: r.chance(1, 2) }
}
fn val_src(l: &L, m: &str) -> String {
    match l.kind {
        "any" => [format!("{m}[1] == 3"), format!("({m}[0] % 4) == 1"), format!("{m}[1] > 8"), format!("any y{} [2, 6) {{ y{} == {m}[1] }}", l.id, l.id)][l.val].clone(),
        "all" => [format!("{m}[1] != 3"), format!("({m}[0] % 4) != 1"), format!("{m}[1] < 9"), format!("all y{} [2, 6) {{ y{} != {m}[1] }}", l.id, l.id)][l.val].clone(),
        "min" | "max" if l.val == 3 => format!("{} y{} [1, 4) {{ {m}[1] + y{} }}", l.kind, l.id, l.id),
        "sift" => [format!("clone({m})"), format!("{m}[0] + 1"), format!("[clone({m}[2])]")][l.val].clone(),
        _ => [format!("{m}[1] + 0"), format!("{m}[1] * 2"), format!("{m}[1] - 5")][l.val].clone(),
    }
}
fn val_of(l: &L, m: &[Val]) -> Val {
    let (a, b) = (m[0].num().unwrap(), m[1].num().unwrap());
    match l.kind {
        "any" => Val::Bool([b == 3.0, a % 4.0 == 1.0, b > 8.0, (2.0..6.0).contains(&b)][l.val]),
        "all" => Val::Bool([b != 3.0, a % 4.0 != 1.0, b < 9.0, !(2.0..6.0).contains(&b)][l.val]),
        "sift" => match l.val { 0 => Val::Arr(m.to_vec()), 1 => Val::Num(a + 1.0), _ => Val::Arr(vec![m[2].clone()]) },
        "min" | "max" if l.val == 3 => Val::Num(b + if l.kind == "min" { 1.0 } else { 3.0 }),
        _ => Val::Num([b, b * 2.0, b - 5.0][l.val]),
    }
}
/// The secret of the body's own value, if it has one.
fn sec_of(l: &L, m: &[Val]) -> Option<Val> { if l.val != 3 { return None; } Some(match l.kind { "any" | "all" => m[1].clone(), "min" => Val::Num(1.0), _ => Val::Num(3.0) }) }
fn loop_src(l: &L, pad: &str, o: &mut String) {
    let m = format!("m{}", l.id);
    let p1 = format!("{pad}    ");
    // a variable that must still be there after the loop, maybe hidden by the loop variable meanwhile
    let kv = format!("{}{}", if l.shadow { "m" } else { "k" }, l.id);
    *o += &format!("{pad}{kv} := {}\n", l.id);
    let own = if l.lab.is_some() || l.inner.as_ref().map_or(false, |i| i.up.is_some()) { format!("'w{}: ", l.id) } else { String::new() };
    let head = if l.kind == "for" { format!("{pad}{own}for {m} in rx {{\n") } else { format!("{pad}v{} := {own}{} {m} in rx {{\n", l.id, l.kind) };
    *o += &head;
    let lk = l.kind == "link";
    if l.loc && !lk { *o += &format!("{p1}q{} := clone({m})\n", l.id); }
    *o += &if lk { format!("{p1}seen({}, {m})\n", l.id) } else { format!("{p1}ev([\"m\", {}, {m}])\n", l.id) };
    if let Some(i) = &l.inner { if i.mid { *o += &format!("{p1}for z{} 1 {{\n", i.id); loop_src(i, &format!("{p1}    "), o); *o += &format!("{p1}}}\n"); } else { loop_src(i, &p1, o); } }
    let cond = |p: u64, q: u64| format!("({m}[0] % {p}) == {q}");
    if let Some((p, q, b)) = l.lab { *o += &format!("{p1}for n{0} 2 {{\n{p1}    h{0} := n{0} + 1\n{p1}    if (h{0} == 2) && ({1}) {{ {2} 'w{0} }}\n{p1}}}\n", l.id, cond(p, q), if b { "break" } else { "continue" }); }
    if let Some((p, q, b, w)) = l.up { *o += &format!("{p1}if {} {{ {} 'w{w} }}\n", cond(p, q), if b { "break" } else { "continue" }); }
    if let Some((p, q, out)) = l.cont { *o += &format!("{p1}if {} {{ continue{} }}\n", cond(p, q), if out { " 'o" } else { "" }); }
    if let Some((p, q, out)) = l.brk { *o += &format!("{p1}if {} {{ break{} }}\n", cond(p, q), if out { " 'o" } else { "" }); }
    if let Some((p, q)) = l.ret { *o += &format!("{p1}if {} {{ return [\"ret\", {m}[0] + 0] }}\n", cond(p, q)); }
    if l.fault { *o += &format!("{p1}{}\n", if lk { "fault_num(7)" } else { "fault()" }); }
    if lk { *o += &format!("{p1}clone({m}[3])\n"); }
    if l.kind != "for" { *o += &format!("{p1}{}\n", val_src(l, &if l.loc && !lk { format!("q{}", l.id) } else { m.clone() })); }
    *o += &format!("{pad}}}\n");
    if l.kind == "for" { *o += &format!("{pad}ev([\"lv\", {kv}])\n"); }
    else if matches!(l.kind, "min" | "max") { *o += &format!("{pad}s{0} := try where(v{0})\n{pad}ev([\"lv\", {kv}, v{0}, s{0}])\n", l.id); }
    else if matches!(l.kind, "any" | "all") { let f = if l.kind == "any" { format!("why(v{})", l.id) } else { format!("why(!v{})", l.id) }; *o += &format!("{pad}s{0} := try {f}\n{pad}ev([\"lv\", {kv}, v{0}, s{0}])\n", l.id); }
    else { *o += &format!("{pad}ev([\"lv\", {kv}, v{0}])\n", l.id); }
}
pub fn make(g: &mut Gen) -> Box<dyn Plan> {
    let mut msgs = HashMap::new(); let mut src = String::from("fn f(id: f64, x: f64, y: any, z: str) -> f64 {\n    ev([\"b\", id])\n    return id + x\n}\nfn seen(k: f64, m: []) -> f64 {\n    ev([\"m\", k, m])\n    return m[0] + 0\n}\n");
    let mut send = |id: u64, r: &mut Rng, pad: &str| -> String {
        let x = r.below(10) as f64; let (t, v) = crate::lit::any(r, 1); let z = format!("z{}", r.below(30));
        msgs.insert(id, Val::Arr(vec![Val::Num(id as f64), Val::Num(x), v, Val::Str(z.clone())]));
        format!("{pad}r{id} := f({id}, {x}, {t}, \"{z}\")\n{pad}ev([\"r\", {id}])\n")
    };
    let seq = g.r.chance(1, 2);
    let nsend = if seq { 0 } else { g.r.range(1, 3) };
    for s in 0..nsend {
        let mut b = String::new(); let n = g.r.range(2, 9);
        for (i, mut r) in g.items(n).into_iter().enumerate() { b += &send(1000 * (s as u64 + 1) + i as u64, &mut r, "    "); if r.chance(1, 5) { b += "    yieldp()\n"; } if r.chance(1, 8) { b += "    sleep(0.0001)\n"; } }
        src += &format!("fn send{s}() -> f64 {{\n{b}    return 1\n}}\n");
    }
    let mut next = 1;
    let mut readers = vec![];
    let two = g.r.chance(1, 4);
    for k in 0..(if two { 2 } else { 1 }) {
        let mut loops = vec![]; let n = g.r.range(1, 6);
        for mut r in g.items(n) { loops.push(gen_loop(&mut r, &mut next, 0)); }
        for l in &loops {
            let mut b = String::new();
            if l.label {
                b += &format!("    'o: for i {} {{\n        ev([\"it\", {}, i])\n", l.outer, l.id);
                if l.mid { b += &format!("        for z{} 2 {{\n", l.id); loop_src(l, "            ", &mut b); b += "        }\n"; } else { loop_src(l, "        ", &mut b); }
                b += "    }\n";
            } else { loop_src(l, "    ", &mut b); }
            src += &format!("fn loop{}(rx: in[[]]) -> any {{\n    ev([\"ls\", {}])\n{b}    return [\"end\", 0]\n}}\n", l.id, l.id);
        }
        readers.push(Reader { loops, main: k == 0 });
    }
    let run = |r: &mut Rng, l: &L, pad: &str| format!("{pad}e{0} := try loop{0}(rx)\n{pad}ev([\"le\", {0}, e{0}])\n{1}", l.id, if r.chance(1, 4) { format!("{pad}yieldp()\n") } else if r.chance(1, 5) { format!("{pad}sleep(0.0002)\n") } else { String::new() });
    if two { let mut r = g.r.fork(); let b: String = readers[1].loops.iter().map(|l| run(&mut r, l, "    ")).collect(); src += &format!("fn reader(rx: in[[]]) -> f64 {{\n    ev([\"rd\", 1])\n{b}    return 1\n}}\n"); }
    let mut m = String::from("    rx := in f\n");
    let mut ord = vec![]; let mut id = 1;
    let npre = if seq { g.r.range(0, 10) } else { g.r.range(0, 3) };
    for mut r in g.items(npre) { ord.push(id); m += &send(id, &mut r, "    "); id += 1; }
    for s in 0..nsend { m += &format!("    t{s} := go send{s}()\n"); }
    if two { m += "    u := go reader(rx)\n"; }
    for l in &readers[0].loops {
        let mut r = g.r.fork();
        m += &run(&mut r, l, "    ");
        if r.chance(1, 2) { for _ in 0..r.below(5) { ord.push(id); m += &send(id, &mut r, "    "); id += 1; } }
    }
    for s in 0..nsend { m += &format!("    j{s} := join(thread: t{s})\n"); }
    if two { m += "    ju := unwrap(join(thread: u))\n"; }
    m += "    for m in rx { ev([\"d\", m]) }\n";
    src += &format!("fn main() {{\n{m}}}\n");
    Box::new(LoopPlan { src, readers, msgs, module: OnceCell::new(), order: if seq && !two { Some(ord) } else { None } })
}

struct Cur<'a> { ev: &'a [(usize, Val)], at: usize, faults: &'a [bool], fi: usize, last: usize, reads: Vec<(u64, usize)>, naturals: Vec<usize> }
enum Out { End, Ret(f64), Fault, BreakO, ContO, Up(bool) }
impl<'a> Cur<'a> {
    fn tag(&self) -> Option<(&'a str, u64, &'a [Val])> { let e = self.ev.get(self.at)?; let a = e.1.arr()?; Some((a[0].as_str()?, a.get(1).and_then(|x| x.num()).unwrap_or(0.0) as u64, a)) }
    fn take(&mut self, t: &str, id: u64) -> Result<&'a [Val], String> {
        match self.tag() { Some((a, b, v)) if a == t && b == id => { self.last = self.ev[self.at].0; self.at += 1; Ok(v) } x => Err(format!("loop went wrong|expected event {t} {id}, got {}", x.map_or("nothing".into(), |x| Val::Arr(x.2.to_vec()).render()))) }
    }
}
impl LoopPlan {
    fn body(&self, c: &mut Cur, l: &L, m: &[Val]) -> Result<Result<Option<Val>, (Out, bool)>, String> {
        // Ok(Ok(value or skipped)), Ok(Err((way out, of the whole function)))
        let id = m[0].num().unwrap() as u64;
        if let Some(i) = &l.inner { match self.one(c, i)? { Out::End => {} Out::Up(true) => return Ok(Err((Out::End, false))), Out::Up(false) => return Ok(Ok(None)), o => return Ok(Err((o, true))) } }
        if let Some((p, q, b)) = l.lab { if id % p == q { return Ok(if b { Err((Out::End, false)) } else { Ok(None) }); } }
        if let Some((p, q, b, _)) = l.up { if id % p == q { return Ok(Err((Out::Up(b), true))); } }
        if let Some((p, q, out)) = l.cont { if id % p == q { return Ok(if out { Err((Out::ContO, true)) } else { Ok(None) }); } }
        if let Some((p, q, out)) = l.brk { if id % p == q { return Ok(Err((if out { Out::BreakO } else { Out::End }, out))); } }
        if let Some((p, q)) = l.ret { if id % p == q { return Ok(Err((Out::Ret(id as f64), true))); } }
        if l.fault { let f = c.faults.get(c.fi).copied().unwrap_or(false); c.fi += 1; if f { return Ok(Err((Out::Fault, true))); } }
        Ok(Ok(Some(if l.kind == "for" { Val::Num(0.0) } else { val_of(l, m) })))
    }
    /// One execution of the loop itself, up to and including the event with its value.
    fn one(&self, c: &mut Cur, l: &L) -> Result<Out, String> {
        let (mut vals, mut sec): (Vec<Val>, Option<Vec<Val>>) = (vec![], None);
        let (mut sum, mut prod, mut best, mut flag) = (0.0f64, 1.0f64, f64::NAN, l.kind == "all");
        loop {
            let msg = match c.tag() { Some(("m", id, v)) if id == l.id => { let x = v.get(2).and_then(|x| x.arr()).ok_or("bad message|not an array")?; c.reads.push((x[0].num().unwrap_or(-1.0) as u64, c.ev[c.at].0)); c.last = c.ev[c.at].0; c.at += 1; x } _ => { c.naturals.push(c.last); break; } };
            if l.kind == "link" { vals.push(Val::Num(msg[0].num().unwrap())); }
            match self.body(c, l, msg)? {
                Err((Out::End, false)) => break,
                Err((o, _)) => return Ok(o),
                Ok(None) => {}
                Ok(Some(v)) => {
                    if l.kind == "link" { if l.fault { vals.push(Val::Num(7.0)); } vals.push(msg[3].clone()); vals.push(v); continue; }
                    match v {
                        Val::Bool(b) => if b != (l.kind == "all") { flag = b; sec = Some(std::iter::once(Val::Arr(msg.to_vec())).chain(sec_of(l, msg)).collect()); break; },
                        Val::Num(x) if l.kind != "sift" => { sum += x; prod *= x; if best.is_nan() || (l.kind == "min" && best > x) || (l.kind == "max" && best < x) { best = x; sec = Some(std::iter::once(Val::Arr(msg.to_vec())).chain(sec_of(l, msg)).collect()); } }
                        v => vals.push(v),
                    }
                }
            }
        }
        let e = c.take("lv", l.id)?;
        let want = match l.kind { "for" => return Ok(Out::End), "sum" => Val::Num(sum), "prod" => Val::Num(prod), "min" | "max" => Val::Num(best), "sift" => Val::Arr(vals), "link" => Val::Link(vals), _ => Val::Bool(flag) };
        let eq = |a: &Val, b: &Val| a == b || matches!((a, b), (Val::Num(x), Val::Num(y)) if x.is_nan() && y.is_nan());
        if !eq(&want, &e[2]) { return Err(format!("loop gave a wrong value|{} loop {}: {} instead of {}", l.kind, l.id, e[2].render(), want.render())); }
        if let Some(s) = e.get(3) {
            let good = match (&sec, s) { (Some(m), Val::Ok(a)) => a.arr().map_or(false, |a| a == m.as_slice()), (None, Val::Err(_)) => true, _ => false };
            if !good { return Err(format!("loop gave a wrong secret|{} loop {}: {} with {}", l.kind, l.id, s.render(), sec.map_or("nothing".into(), |x| Val::Arr(x).render()))); }
        }
        Ok(Out::End)
    }
    fn reader(&self, c: &mut Cur, rd: &Reader) -> Result<(), String> {
        for l in &rd.loops {
            if rd.main { while let Some((t, ..)) = c.tag() { if t == "b" || t == "r" { c.at += 1; } else { break; } } }
            c.take("ls", l.id)?;
            let mut out = Out::End;
            for i in 0..l.outer {
                if l.label { let e = c.take("it", l.id)?; if e[2].num() != Some(i as f64) { return Err("loop went wrong|outer loop counts wrongly".into()); } }
                let mut stop = false;
                for _ in 0..if l.label && l.mid { 2 } else { 1 } { match self.one(c, l)? { Out::End => {} Out::ContO => break, Out::BreakO => { stop = true; break; } o => { out = o; stop = true; break; } } }
                if stop { break; }
            }
            let e = c.take("le", l.id)?;
            let good = match (&out, &e[2]) { (Out::Fault, Val::Err(x)) => x.as_str().map_or(false, |t| t.contains("injected fault")), (Out::Ret(id), Val::Ok(v)) => **v == Val::Arr(vec![Val::str("ret"), Val::Num(*id)]), (Out::End, Val::Ok(v)) => **v == Val::Arr(vec![Val::str("end"), Val::Num(0.0)]), _ => false };
            if !good { return Err(format!("loop left in a wrong way|loop {} ended with {}", l.id, e[2].render())); }
        }
        Ok(())
    }
}
impl Plan for LoopPlan {
    fn describe(&self) -> String { self.src.clone() }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, _p: &Probe) { if r.chance(1, 2) { c.pf[sim::F_HOST] = *r.pick(&[5000, 20000]); } }
    fn setup(&self) -> Result<(), String> { let m = host::load("main.dyon", &self.src).map_err(|e| format!("module does not load|{e}"))?; let _ = self.module.set(Arc::new(m)); Ok(()) }
    fn exec(&self) { super::memory::exec(host::load("main.dyon", &self.src).unwrap()); }
    fn run(&self, s: &mut Shm, _p: u32, _j: &str) -> Result<(), String> {
        let m = self.module.get().unwrap();
        let mut rt = dyon::Runtime::new();
        sim::explore(true);
        let r = rt.run(m);
        sim::explore(false);
        let mut hist = String::new(); for (i, e) in host::events().iter().enumerate() { hist += &format!("\n  {i}: T{} {}", e.tid, e.v.render()); }
        let fail = |e: String| Err(format!("{e}{hist}"));
        if let Err(e) = r { return fail(format!("program failed|{e}")); }
        let main = sim::tid();
        let second = host::events().iter().find(|e| e.v.arr().map_or(false, |a| a[0].as_str() == Some("rd"))).map(|e| e.tid);
        let mut all_reads: Vec<(u32, u64, usize)> = vec![]; let mut nat: Vec<(u32, usize)> = vec![];
        let mut acks: HashMap<u64, usize> = HashMap::new();
        for (i, e) in host::events().iter().enumerate() { if let Some([Val::Str(t), Val::Num(x), ..]) = e.v.arr() { if t == "r" { acks.insert(*x as u64, i); } } }
        for (k, rd) in self.readers.iter().enumerate() {
            let tid = if k == 0 { main } else { match second { Some(t) => t, None => return fail("reader did not run|".into()) } };
            let ev: Vec<(usize, Val)> = host::events().iter().enumerate().filter(|(_, e)| e.tid == tid).map(|(i, e)| (i, e.v.clone())).collect();
            let fl: Vec<bool> = host::faults().iter().filter(|f| f.0 == tid).map(|f| f.1).collect();
            let mut c = Cur { ev: &ev, at: 0, faults: &fl, fi: 0, last: 0, reads: vec![], naturals: vec![] };
            if k == 1 { if let Err(e) = c.take("rd", 1) { return fail(e); } }
            if let Err(e) = self.reader(&mut c, rd) { return fail(e); }
            for (id, i) in &c.reads { all_reads.push((tid, *id, *i)); }
            for n in &c.naturals { nat.push((tid, *n)); }
        }
        // what is left at the end
        for (i, e) in host::events().iter().enumerate() { if let Some([Val::Str(t), x]) = e.v.arr() { if t == "d" { all_reads.push((main, x.arr().and_then(|a| a[0].num()).unwrap_or(-1.0) as u64, i)); } } }
        let mut seen = HashSet::new();
        for (_, id, i) in &all_reads {
            let e = &host::events()[*i].v; let m = e.arr().and_then(|a| a.last()).cloned().unwrap();
            match self.msgs.get(id) { Some(w) if *w == m => {} Some(w) => return fail(format!("message has a wrong content|{} instead of {}", m.render(), w.render())), None => return fail(format!("message that was never sent|{}", m.render())) }
            if !seen.insert(*id) { return fail(format!("message processed twice|{id}")); }
        }
        for id in self.msgs.keys() { if !seen.contains(id) { return fail(format!("message lost|{id}")); } }
        // oldest first: per reader and sender
        let mut last: HashMap<(u32, u64), u64> = HashMap::new();
        all_reads.sort_by_key(|x| x.2);
        for (t, id, _) in &all_reads { let k = (*t, id / 1000); if let Some(p) = last.insert(k, *id) { if p > *id { return fail(format!("messages out of order|{id} after {p}")); } } }
        if let Some(o) = &self.order { let got: Vec<u64> = all_reads.iter().map(|x| x.1).collect(); if got != *o { return fail(format!("messages out of order|{got:?} instead of {o:?}")); } }
        // a loop that ran to its end left nothing behind that was there before its last look
        for (t, n) in &nat { for (u, id, i) in &all_reads { if t == u && i > n { if let Some(a) = acks.get(id) { if a < n { return fail(format!("loop stopped early|message {id} was waiting (event {a}) when a loop ended after event {n}")); } } } } }
        count(s, "messages_checked", seen.len() as u64); count(s, "oracle_checks", nat.len() as u64 + self.readers.iter().map(|r| r.loops.len() as u64).sum::<u64>());
        Ok(())
    }
}
