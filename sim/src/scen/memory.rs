//! The workloads of the other properties with the allocation ledger on, and links worked on by several threads (C15).
use crate::engine::{count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg, Shm};
use crate::val::Val;
use crate::alloc;
use super::to_var;
use dyon::{Link, Variable};
use std::sync::Arc;

static mut EXPLORE: bool = false;
/// One module and one runtime are used again and again.
static mut STEADY: bool = false;
static mut HOLD: bool = false;
static mut BASE: (i64, i64) = (0, 0);
static mut GREW: (i64, i64) = (0, 0);
pub fn explore(on: bool) { if unsafe { EXPLORE } { sim::explore(on); } }
pub fn settle() { let mut k = 0; while sim::live_threads() > 1 && k < 20_000 { std::thread::sleep(std::time::Duration::from_micros(100 * (k + 1))); k += 1; } }
/// Runs a module, which nobody else holds, and drops it.
pub fn exec(m: dyon::Module) {
    let m = Arc::new(m);
    let mut rt = dyon::Runtime::new();
    explore(true);
    // receivers that stay open all the time
    let held = if unsafe { STEADY && HOLD } && matches!(m.find_function(&Arc::new("hold".to_string()), 0), dyon::FnIndex::Loaded(_)) { rt.call_str_ret("hold", &[], &m).ok() } else { None };
    let drain = || if let Some(Variable::Array(a)) = &held { for x in a.iter() { if let Variable::In(rx) = x { let rx = rx.lock().unwrap(); while rx.try_recv().is_ok() {} } } };
    for k in 0..if unsafe { STEADY } { 8 } else { 1 } {
        let r = rt.run(&m);
        drop(r);
        if unsafe { STEADY } {
            settle();
            // calls nobody listens to: what was kept for receivers that are gone goes
            if let dyon::FnIndex::Loaded(_) = m.find_function(&Arc::new("quiesce".to_string()), 0) { let r = rt.call_str("quiesce", &[], &m); drop(r); }
            drain();
            let n = alloc::live();
            unsafe { if k == 1 { BASE = n; } GREW = (n.0 - BASE.0, n.1 - BASE.1); }
        }
    }
    drop(held); drop(rt); drop(m);
    settle();
    explore(false);
}
struct Steady { inner: Box<dyn Plan>, hold: bool }
impl Plan for Steady {
    fn describe(&self) -> String { format!("// run 8 times on one runtime{}, memory in use may not grow from run to run\n{}", if self.hold { ", with receivers open all the time" } else { "" }, self.inner.describe()) }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, p: &Probe) { self.inner.faults(r, c, p); c.crash_io = 0; }
    fn prepare(&self, s: &mut Shm) { self.inner.prepare(s) }
    fn ledger(&self) -> bool { true }
    fn max_steps(&self) -> u64 { 400_000_000 }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> {
        unsafe { STEADY = true; HOLD = self.hold; }
        twice(s, || { self.inner.exec(); let g = unsafe { GREW }; // at least one block in each of the last six runs
            if g.0 >= 6 { return Err(format!("memory in use grows from run to run|{} blocks ({} bytes) more after the eighth run than after the second", g.0, g.1)); } Ok(()) })
    }
}
pub fn steady(g: &mut Gen) -> Box<dyn Plan> {
    let inner = match g.r.below(6) { 0 | 1 => super::chan::order(g), 2 | 3 => super::chan::churn(g), 4 => super::files::saves(g), _ => super::io::stdout(g) };
    Box::new(Steady { inner, hold: g.r.chance(2, 3) })
}
struct Mem { inner: Box<dyn Plan>, spawnf: bool }
impl Plan for Mem {
    fn describe(&self) -> String { format!("// run twice, everything is to be released\n{}", self.inner.describe()) }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, p: &Probe) { self.inner.faults(r, c, p); c.crash_io = 0; if self.spawnf && r.chance(1, 4) { c.pf[sim::F_SPAWN_FAIL] = *r.pick(&[3000, 20000]); } }
    fn prepare(&self, s: &mut Shm) { self.inner.prepare(s) }
    fn ledger(&self) -> bool { true }
    fn max_steps(&self) -> u64 { 400_000_000 }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> { twice(s, || { self.inner.exec(); Ok(()) }) }
}
/// Does the same thing twice; the second time under the searched schedule. Nothing may be left behind.
fn twice(s: &mut Shm, f: impl Fn() -> Result<(), String>) -> Result<(), String> {
    unsafe { EXPLORE = false; }
    let pf = s.cfg.pf;
    f()?; // creates what the library and this thread create once
    if sim::live_threads() > 1 { return Err("thread never ends|".into()); }
    s.cfg.pf = pf; s.stdin_pos = 0;
    unsafe { EXPLORE = true; }
    let a = alloc::live();
    let r = f();
    let b = alloc::live();
    sim::explore(false);
    r?;
    if sim::live_threads() > 1 { return Err("thread never ends|".into()); }
    alloc::scan();
    let (d, w, u) = unsafe { (alloc::DOUBLE, alloc::WRONG, alloc::UAF) };
    if d > 0 { return Err(format!("memory released twice|{d} blocks")); }
    if w > 0 { return Err(format!("memory released with a wrong size|{w} blocks")); }
    if u > 0 { return Err(format!("memory written after its release|{u} blocks")); }
    if b.0 != a.0 { return Err(format!("memory leaked|{} blocks ({} bytes) more are alive after the program than before", b.0 - a.0, b.1 - a.1)); }
    count(s, "allocations_checked", unsafe { alloc::TOTAL });
    Ok(())
}
pub fn channels(g: &mut Gen) -> Box<dyn Plan> {
    let k = g.r.below(5);
    let inner = match k { 0 => super::chan::order(g), 1 => super::chan::churn(g), 2 => super::chan::readers(g), 3 => super::chan2::disconnect(g), _ => super::inloop::make(g) };
    Box::new(Mem { inner, spawnf: false })
}
pub fn loads(g: &mut Gen) -> Box<dyn Plan> { Box::new(Mem { inner: super::loads::make(g), spawnf: true }) }
pub fn io(g: &mut Gen) -> Box<dyn Plan> {
    let inner = match g.r.below(6) { 0 => super::files::saves(g), 1 => super::files::loads(g), 2 => super::io::stdin(g), 3 => super::io::spawn(g), 4 => super::io::stdout(g), _ => net(g) };
    Box::new(Mem { inner, spawnf: false })
}
#[cfg(feature = "http")]
fn net(g: &mut Gen) -> Box<dyn Plan> { super::http::make(g) }
#[cfg(not(feature = "http"))]
fn net(g: &mut Gen) -> Box<dyn Plan> { super::files::loads(g) }

/// Operations on the links of one thread; an index beyond the thread's own links means one shared by all threads.
#[derive(Clone, Debug)]
enum Op { New, Push(usize, Val), Many(usize, usize, u8), Tail(usize, usize), Neck(usize, usize), Add(usize, usize), Append(usize, usize), Copy(usize), Drop(usize), Check(usize), Bad(usize) }
struct Links { shared: Vec<Vec<Val>>, threads: Vec<Vec<Op>> }
fn item(r: &mut Rng) -> Val { match r.below(4) { 0 => Val::Bool(r.chance(1, 2)), 1 => Val::Num(r.below(100) as f64), _ => Val::Str(format!("s{}", r.below(1000))) } }
pub fn links(g: &mut Gen) -> Box<dyn Plan> {
    let nsh = g.r.range(1, 3);
    let shared = (0..nsh).map(|_| { let n = *g.r.pick(&[0usize, 1, 3, 60, 123, 124, 125, 130, 248, 249]); let mut r = g.r.fork(); (0..n).map(|_| item(&mut r)).collect() }).collect();
    let nt = g.r.range(1, 3);
    let mut threads = vec![];
    for _ in 0..nt {
        let n = g.r.range(3, 25);
        let ops = g.items(n).into_iter().map(|mut r| {
            let k = r.below(16);
            match r.weighted(&[1, 5, 3, 4, 5, 3, 2, 3, 2, 4, 1]) {
                0 => Op::New, 1 => { let v = item(&mut r); Op::Push(k, v) } 2 => Op::Many(k, *r.pick(&[2usize, 5, 60, 123, 124, 130]), r.below(3) as u8),
                3 => Op::Tail(k, *r.pick(&[1usize, 1, 2, 5, 123, 124])), 4 => Op::Neck(k, *r.pick(&[1usize, 1, 1, 2, 5, 123, 124])), 5 => Op::Add(k, r.below(16)), 6 => Op::Append(k, r.below(16)),
                7 => Op::Copy(k), 8 => Op::Drop(k), 9 => Op::Check(k), _ => Op::Bad(k),
            }
        }).collect();
        threads.push(ops);
    }
    Box::new(Links { shared, threads })
}
fn build(v: &[Val]) -> Link { let mut l = Link::new(); for x in v { l.push(&to_var(x).unwrap()).unwrap(); } l }
fn same(v: &Variable, w: &Val) -> bool { match (v, w) { (Variable::Bool(a, _), Val::Bool(b)) => a == b, (Variable::F64(a, _), Val::Num(b)) => a == b, (Variable::Str(a), Val::Str(b)) => **a == *b, _ => false } }
fn check(l: &Link, m: &[Val]) -> Result<(), String> {
    let bad = |what: &str, at: usize| Err(format!("link has a wrong content|{what} at item {at} of {}", m.len()));
    if l.is_empty() != m.is_empty() { return bad("is_empty", 0); }
    let end = |x: Option<Box<Variable>>, w: Option<&Val>| match (&x, w) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false };
    if !end(l.head(), m.first()) { return bad("head", 0); }
    if !end(l.tip(), m.last()) { return bad("tip", m.len()); }
    // walk from both ends
    let mut a = l.clone(); let mut i = 0;
    while let Some(h) = a.head() { if i >= m.len() || !same(&h, &m[i]) { return bad("value", i); } i += 1; a = a.tail(); }
    if i != m.len() { return bad("length from the front", i); }
    let mut a = l.clone(); let mut i = m.len();
    while let Some(h) = a.tip() { if i == 0 || !same(&h, &m[i - 1]) { return bad("value", i); } i -= 1; a = a.neck(); }
    if i != 0 { return bad("length from the back", i); }
    Ok(())
}
fn thread(ops: &[Op], shared: &[(Link, Vec<Val>)]) -> Result<(), String> {
    // The model is owned by the harness.
    alloc::harness(true); let mut own: Vec<(Link, Vec<Val>)> = Vec::with_capacity(64); alloc::harness(false);
    macro_rules! h { ($e:expr) => {{ alloc::harness(true); let x = $e; alloc::harness(false); x }} }
    let pick = |own: &Vec<(Link, Vec<Val>)>, k: usize| -> (Link, Vec<Val>) { let n = own.len() + shared.len(); let k = k % n; let s = if k < own.len() { &own[k] } else { &shared[k - own.len()] }; (s.0.clone(), h!(s.1.clone())) };
    for op in ops {
        if own.len() > 40 { break; }
        match op {
            Op::New => own.push((Link::new(), vec![])),
            Op::Push(k, v) => { if own.is_empty() { continue; } let n = own.len(); let o = &mut own[k % n]; let x = to_var(v).unwrap(); o.0.push(&x)?; h!(o.1.push(v.clone())); }
            Op::Many(k, c, ty) => { if own.is_empty() { continue; } let n = own.len(); let o = &mut own[k % n]; for i in 0..*c { let v = h!(match ty { 0 => Val::Num(i as f64), 1 => Val::Bool(i % 3 == 0), _ => Val::Str(format!("m{i}")) }); let x = to_var(&v).unwrap(); o.0.push(&x)?; h!(o.1.push(v)); } }
            Op::Tail(k, c) => { let (mut l, mut m) = pick(&own, *k); for _ in 0..*c { l = l.tail(); if !m.is_empty() { h!(m.remove(0)); } } own.push((l, m)); }
            Op::Neck(k, c) => { let (mut l, mut m) = pick(&own, *k); for _ in 0..*c { l = l.neck(); h!(m.pop()); } own.push((l, m)); }
            Op::Add(a, b) => { let (l, mut m) = pick(&own, *a); let (l2, m2) = pick(&own, *b); if m.len() + m2.len() > 700 { h!(drop((m, m2))); continue; } let l = l.add(&l2); h!(m.extend(m2)); own.push((l, m)); }
            Op::Append(a, b) => { let (mut l, mut m) = pick(&own, *a); let (l2, m2) = pick(&own, *b); if m.len() + m2.len() > 700 { h!(drop((m, m2))); continue; } l.push(&Variable::Link(Box::new(l2)))?; h!(m.extend(m2)); own.push((l, m)); }
            Op::Copy(k) => { let x = pick(&own, *k); own.push(x); }
            Op::Drop(k) => { if own.is_empty() { continue; } let n = own.len(); let (l, m) = own.swap_remove(k % n); drop(l); h!(drop(m)); }
            Op::Check(k) => { let (l, m) = pick(&own, *k); check(&l, &m)?; drop(l); h!(drop(m)); }
            Op::Bad(k) => { if own.is_empty() { continue; } let n = own.len(); let o = &mut own[k % n]; if o.0.push(&Variable::Vec4([0.0; 4])).is_ok() { return Err("link took a value it cannot hold|".into()); } }
        }
    }
    for (l, m) in &own { check(l, m)?; }
    for (l, m) in shared { check(l, m)?; }
    for (l, m) in own.drain(..) { drop(l); h!(drop(m)); }
    h!(drop(own));
    Ok(())
}
impl Plan for Links {
    fn describe(&self) -> String { let mut o = String::new(); for (i, s) in self.shared.iter().enumerate() { o += &format!("shared link {i}: {}\n", Val::Arr(s.clone()).render()); } for (i, t) in self.threads.iter().enumerate() { o += &format!("thread {i}:\n"); for x in t { o += &format!("  {x:?}\n"); } } o }
    fn ledger(&self) -> bool { true }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> {
        let me = self as *const Links as usize;
        twice(s, || {
            let sh: Arc<Vec<(Link, Vec<Val>)>> = Arc::new(self.shared.iter().map(|v| (build(v), v.clone())).collect());
            let hs: Vec<_> = (0..self.threads.len()).map(|i| {
                // every thread gets copies of its own, which share the blocks
                let mine: Vec<(Link, Vec<Val>)> = sh.iter().map(|x| (x.0.clone(), x.1.clone())).collect();
                std::thread::spawn(move || { let p = unsafe { &*(me as *const Links) }; thread(&p.threads[i], &mine) })
            }).collect();
            explore(true);
            let mut r = Ok(());
            for h in hs { match h.join() { Ok(x) => if r.is_ok() { r = x; } Err(_) => r = Err("panic in a link operation|".into()) } }
            drop(sh);
            explore(false);
            r
        })?;
        count(s, "oracle_checks", self.threads.iter().map(|t| t.len() as u64).sum());
        Ok(())
    }
}
