//! Loading modules under every schedule and hash seed, alone and concurrently with other loads (C07).
use crate::corpus::CORPUS;
use crate::engine::{clip, count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::scen::prog::{self, ProgPlan};
use crate::sim::{self, Cfg, Shm};
use crate::host;
use std::cell::RefCell;
use std::sync::Arc;

/// Function definitions that break a rule; `@` is replaced by a unique suffix.
const BAD: &[&str] = &[
    "fn bad@() -> f64 { return undeclared@ }\n",
    "fn bad@(a: []) { push(mut a, 1) }\n",
    "fn bad@() -> f64 { return \"s\" }\n",
    "fn bad@() { nosuch@(1) }\n",
    "fn bad@(a: f64, a: f64) -> f64 { return a + a }\n",
    "fn bad@(mut a: [], b: []) { a[0] = b }\n",
    "fn bad@(mut a: []) {\n    b := [1]\n    a[0] = b\n}\n",
    "fn bad@(a: []) -> [] { return a }\n",
    "fn bad@() -> f64 { return sin(1, 2) }\n",
    "fn hlp@(mut a: []) { push(mut a, 1) }\nfn bad@() {\n    a := [1]\n    hlp@(a)\n}\n",
    "fn bad@( {\n",
    "fn bad@() { x := }\n",
    "fn bad@() -> f64 { x := 1 }\n",
    "fn hlp@(a: f64) -> f64 { return a + 1 }\nfn bad@() -> f64 { return hlp@(\"x\") }\n",
    "fn hlp@(a: f64) -> f64 { return a + 1 }\nfn bad@() { hlp@(1) }\n",
    "fn bad@() { if 1 { println(1) } }\n",
    "fn bad@() -> f64 { return 1 + \"x\" }\n",
    "fn bad@() -> f64 { return 1 + true }\n",
    "fn bad@(a: f64) -> str { return a }\n",
    "fn bad@(x: f64) -> f64 {\n    return x\n}\nfn bad@(x: f64) -> f64 {\n    return x\n}\n",
    "fn bad@() {\n    a := [1]\n    b := a\n    a = 5\n    push(mut c@, 3)\n}\n",
    "fn bad@(a: f64) { a = 3 }\n",
    "fn bad@() {\n    for i 10 { println(j@) }\n}\n",
    "fn bad@() -> bool { return 5 }\n",
    "hlp@() = 5\nfn bad@() -> str { return hlp@() }\n",
    "hlp@(x) = str(x)\nfn bad@() -> f64 { return hlp@(3) }\n",
];
#[derive(Clone)]
struct Src { name: String, text: String, base: bool, imports: Vec<usize> }
struct Job { chain: Vec<Src>, accept: bool, file: bool, ret: Option<f64>, prog: Option<usize>, what: String }
struct Loads { jobs: Vec<Job>, progs: Vec<ProgPlan>, refs: RefCell<Vec<Result<(), String>>>, gap: Vec<u64> }

fn load_chain(j: &Job) -> Result<Vec<Arc<dyon::Module>>, String> {
    let mut v: Vec<Arc<dyon::Module>> = vec![];
    for s in &j.chain {
        let mut m = if s.base { host::base() } else { dyon::Module::new() };
        for i in &s.imports { m.import(&v[*i]); }
        if j.file { dyon::load(&s.name, &mut m)?; } else { dyon::load_str(&s.name, Arc::new(s.text.clone()), &mut m)?; }
        v.push(Arc::new(m));
    }
    Ok(v)
}
fn prog_chain(p: &ProgPlan, u: usize, main: String) -> Vec<Src> { p.load_order().into_iter().map(|(k, imports)| Src { name: format!("/sim/m{u}_{k}.dyon"), text: if k == 0 { main.clone() } else { p.src(k) }, base: true, imports }).collect() }
/// Libraries whose functions have inferred return types, and a module that uses them rightly or wrongly.
fn chain(r: &mut Rng, u: usize, file: bool) -> Job {
    let n = r.range(2, 6);
    let mut lib = String::new(); let mut fs: Vec<(String, &str, f64)> = vec![];
    for i in 0..n {
        let f = format!("q{u}_{}{i}", *r.pick(&["a", "zz", "m", "k"]));
        match r.below(4) {
            0 => { lib += &format!("{f}() = {}\n", 10 + i); fs.push((f, "f64", i as f64)); }
            1 => { lib += &format!("fn {f}() -> f64 {{ return 10 * 1 + {i} }}\n"); fs.push((f, "f64", i as f64)); }
            2 => { lib += &format!("fn {f}() -> bool {{ return 2 > {i} }}\n"); fs.push((f, "bool", 0.0)); }
            _ => { lib += &format!("{f}() = str({i})\n"); fs.push((f, "str", 0.0)); }
        }
    }
    let good = r.chance(1, 2);
    let (f, t, k) = r.pick(&fs).clone();
    let mut main = String::new(); let mut ret = None;
    for (i, (g, ty, _)) in fs.iter().enumerate() { if r.chance(1, 3) { main += &format!("fn use{i}() -> {ty} {{ return {g}() }}\n"); } }
    if good { match t { "f64" => { main += &format!("fn main() -> f64 {{ return {f}() + 1 }}\n"); ret = Some(10.0 + k + 1.0); } "bool" => main += &format!("fn main() -> f64 {{\n    if {f}() {{ return 1 }}\n    return 0\n}}\n"), _ => main += &format!("fn main() -> str {{ return {f}() + \"!\" }}\n") } }
    else { match t { "f64" => main += &format!("fn main() -> str {{ return {f}() }}\n"), "bool" => main += &format!("fn main() -> f64 {{ return {f}() + 1 }}\n"), _ => main += &format!("fn main() -> f64 {{ return {f}() }}\n") } }
    let b = |n: String, t: String, imports: Vec<usize>| Src { name: n, text: t, base: true, imports };
    Job { chain: vec![b(format!("/sim/lib{u}.dyon"), lib, vec![]), b(format!("/sim/main{u}.dyon"), main, vec![0])], accept: good, file, ret, prog: None, what: "library and user".into() }
}
pub fn make(g: &mut Gen) -> Box<dyn Plan> {
    let n = *g.r.pick(&[1usize, 1, 2, 2, 3, 4]);
    let mut jobs = vec![]; let mut progs: Vec<ProgPlan> = vec![];
    let file = g.r.chance(1, 3);
    for (u, mut r) in g.items(n).into_iter().enumerate() {
        match r.weighted(&[3, 4, 4, 3]) {
            0 if progs.is_empty() => {
                let p = prog::plan(&mut Gen::new(r.next(), &[]), *r.pick(&[prog::Fl::Join, prog::Fl::Try, prog::Fl::Iso, prog::Fl::Mods]));
                jobs.push(Job { chain: prog_chain(&p, u, p.src(0)), accept: true, file, ret: None, prog: Some(progs.len()), what: "generated program".into() });
                progs.push(p);
            }
            0 | 1 => { // a program with one or more broken functions in it
                let p = prog::plan(&mut Gen::new(r.next(), &[]), *r.pick(&[prog::Fl::Join, prog::Fl::Try, prog::Fl::Iso, prog::Fl::Mods]));
                let big = r.chance(1, 2);
                let mut fs: Vec<String> = if big { p.funs(0) } else { vec!["fn main() {\n    println(1)\n}\n".into()] };
                let k = if r.chance(1, 2) { 1 } else { r.range(2, 5) };
                for i in 0..k { let at = r.below(fs.len() + 1); let b = r.pick(BAD).replace('@', &format!("{i}")); fs.insert(at, b); }
                jobs.push(Job { chain: if big { prog_chain(&p, u, fs.concat()) } else { vec![Src { name: format!("/sim/m{u}.dyon"), text: fs.concat(), base: true, imports: vec![] }] }, accept: false, file, ret: None, prog: None, what: format!("{k} broken functions") });
            }
            2 => { let (n, a, t) = r.pick(CORPUS); jobs.push(Job { chain: vec![Src { name: format!("/sim/c{u}.dyon"), text: t.to_string(), base: false, imports: vec![] }], accept: *a, file, ret: None, prog: None, what: n.to_string() }); }
            _ => jobs.push(chain(&mut r, u, file)),
        }
    }
    let gap = (0..8).map(|_| if g.r.chance(1, 2) { 0 } else { g.r.below(3000) as u64 }).collect();
    Box::new(Loads { jobs, progs, refs: RefCell::new(vec![]), gap })
}
fn show(r: &Result<(), String>) -> String { match r { Ok(()) => "success".into(), Err(e) => format!("{e:?}") } }
impl Plan for Loads {
    fn describe(&self) -> String { let mut o = String::new(); for (i, j) in self.jobs.iter().enumerate() { o += &format!("// load {i} ({}, {}, from {}):\n", j.what, if j.accept { "valid" } else { "not valid" }, if j.file { "files" } else { "strings" }); for s in &j.chain { o += &format!("// {}\n{}\n", s.name, s.text); } } o }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, _p: &Probe) {
        if !self.progs.is_empty() && r.chance(1, 2) { c.pf[sim::F_HOST] = *r.pick(&[3000, 12000]); }
        if r.chance(1, 3) { c.pf[sim::F_R_SHORT] = 20000; c.pf[sim::F_R_EINTR] = 10000; }
        if r.chance(1, 3) { c.pf[sim::D_STALL] = 1500; }
        c.max_faults = 40;
    }
    fn prepare(&self, s: &mut Shm) { if self.jobs.iter().any(|j| j.file) { for j in &self.jobs { for f in &j.chain { s.put_file(&f.name, f.text.as_bytes()); } } } }
    fn setup(&self) -> Result<(), String> {
        // The reference: the same loads one after the other, under the default schedule.
        let mut v = vec![];
        for (i, j) in self.jobs.iter().enumerate() {
            let k = Job { chain: j.chain.clone(), accept: j.accept, file: false, ret: None, prog: None, what: String::new() };
            let r = load_chain(&k).map(|_| ());
            if r.is_ok() != j.accept { return Err(format!("{}|load {i}: {}", if j.accept { "valid source rejected" } else { "invalid source accepted" }, show(&r))); }
            v.push(r);
        }
        *self.refs.borrow_mut() = v;
        Ok(())
    }
    fn run(&self, s: &mut Shm, _ph: u32, _j: &str) -> Result<(), String> {
        let refs = self.refs.borrow().clone();
        let me = self as *const Loads as usize;
        sim::explore(true);
        let one = |i: usize| -> Result<Vec<Arc<dyon::Module>>, String> { let l = unsafe { &*(me as *const Loads) }; if l.gap[i % 8] > 0 { std::thread::sleep(std::time::Duration::from_nanos(l.gap[i % 8] * 1000)); } load_chain(&l.jobs[i]) };
        let mut res: Vec<Result<Vec<Arc<dyon::Module>>, String>> = vec![];
        if self.jobs.len() == 1 { res.push(one(0)); }
        else {
            let hs: Vec<_> = (0..self.jobs.len()).map(|i| std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let l = unsafe { &*(me as *const Loads) }; if l.gap[i % 8] > 0 { std::thread::sleep(std::time::Duration::from_nanos(l.gap[i % 8] * 1000)); } load_chain(&l.jobs[i]) }).expect("thread")).collect();
            for (i, h) in hs.into_iter().enumerate() { match h.join() { Ok(r) => res.push(r), Err(_) => { sim::explore(false); return Err(format!("loading panicked|load {i}")); } } }
        }
        // every thread the loads started has ended, or ends soon
        let mut k = 0; while sim::live_threads() > 1 && k < 100_000 { std::thread::sleep(std::time::Duration::from_micros(50)); k += 1; }
        sim::explore(false);
        if sim::live_threads() > 1 { return Err("thread of a load never ends|".into()); }
        for (i, r) in res.iter().enumerate() {
            let got = r.as_ref().map(|_| ()).map_err(|e| e.clone());
            if got.is_ok() != self.jobs[i].accept { return Err(format!("{}|load {i}: {}", if got.is_err() { "valid source rejected" } else { "invalid source accepted" }, clip(&show(&got), 1500))); }
            if got != refs[i] { return Err(format!("error message depends on the schedule or hash seed|load {i} gave {} but elsewhere {}", clip(&show(&got), 1500), clip(&show(&refs[i]), 1500))); }
            count(s, "programs_loaded", self.jobs[i].chain.len() as u64);
        }
        for (i, r) in res.into_iter().enumerate() {
            let Ok(m) = r else { continue };
            if let Some(x) = self.jobs[i].ret {
                let mut rt = dyon::Runtime::new();
                match rt.call_str_ret("main", &[], m.last().unwrap()) { Ok(dyon::Variable::F64(v, _)) if v == x => {} v => return Err(format!("loaded module behaves differently|load {i}: main gave {} instead of {x}", match v { Ok(v) => crate::val::of(&rt, &v).render(), Err(e) => e })) }
            }
            if let Some(p) = self.jobs[i].prog { host::reset(); let p = &self.progs[p]; p.use_modules(&m); p.run(s, 0, "").map_err(|e| format!("loaded module behaves differently: {e}"))?; }
        }
        Ok(())
    }
    fn exec(&self) {
        let me = self as *const Loads as usize;
        let hs: Vec<_> = (0..self.jobs.len()).map(|i| std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let l = unsafe { &*(me as *const Loads) }; drop(load_chain(&l.jobs[i])); }).expect("spawn")).collect();
        super::memory::explore(true);
        for h in hs { let _ = h.join(); }
        super::memory::settle();
        super::memory::explore(false);
    }
    fn max_steps(&self) -> u64 { 400_000_000 }
}
