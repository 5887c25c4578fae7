//! A plan made of a main module, optional library modules, faults, files, input, and a judge over the recorded history.
use crate::engine::{Plan, Probe};
use crate::rng::Rng;
use crate::sim::{self, Cfg, Shm};
use crate::val::Val;
use crate::host;
use std::cell::OnceCell;
use std::sync::Arc;

pub struct Run<'a> { pub result: Result<(), String>, pub s: &'a mut Shm, pub phase: u32, pub journal: &'a str }
pub struct Script {
    pub libs: Vec<(String, String)>, pub src: String, pub notes: String,
    pub setf: Box<dyn Fn(&mut Rng, &mut Cfg, &Probe)>,
    pub prep: Box<dyn Fn(&mut Shm)>,
    pub judge: Box<dyn Fn(&mut Run) -> Result<(), String>>,
    pub phases: u32, pub steps: u64,
    pub module: OnceCell<Arc<dyon::Module>>,
}
pub fn script(src: String) -> Script {
    Script { libs: vec![], src, notes: String::new(), setf: Box::new(|_, _, _| {}), prep: Box::new(|_| {}), judge: Box::new(|_| Ok(())), phases: 1, steps: 40_000_000, module: OnceCell::new() }
}
pub fn hist() -> String { let mut h = String::new(); for (i, e) in host::events().iter().enumerate().take(400) { h += &format!("\n  {i}: T{} t={} {}", e.tid, e.t, e.v.render()); } h }
/// Events of the form ["tag", ...].
pub fn evs(tag: &str) -> Vec<(usize, u32, u64, Vec<Val>)> { host::events().iter().enumerate().filter_map(|(i, e)| { let a = e.v.arr()?; if a.first()?.as_str()? == tag { Some((i, e.tid, e.t, a[1..].to_vec())) } else { None } }).collect() }
impl Plan for Script {
    fn describe(&self) -> String { let mut o = String::new(); for (n, s) in &self.libs { o += &format!("// {n}\n{s}\n"); } o + &format!("// main\n{}\n{}", self.src, self.notes) }
    fn faults(&self, r: &mut Rng, c: &mut Cfg, p: &Probe) { (self.setf)(r, c, p) }
    fn prepare(&self, s: &mut Shm) { (self.prep)(s) }
    fn phases(&self) -> u32 { self.phases }
    fn max_steps(&self) -> u64 { self.steps }
    fn setup(&self) -> Result<(), String> {
        let mut lib = host::base();
        for (n, s) in &self.libs { let mut m = host::base(); dyon::load_str(n, Arc::new(s.clone()), &mut m).map_err(|e| format!("module does not load|{e}"))?; lib.import(&m); }
        dyon::load_str("main.dyon", Arc::new(self.src.clone()), &mut lib).map_err(|e| format!("module does not load|{e}"))?;
        let _ = self.module.set(Arc::new(lib)); Ok(())
    }
    fn exec(&self) {
        let mut lib = host::base();
        for (n, s) in &self.libs { let mut m = host::base(); dyon::load_str(n, Arc::new(s.clone()), &mut m).unwrap(); lib.import(&m); }
        dyon::load_str("main.dyon", Arc::new(self.src.clone()), &mut lib).unwrap();
        super::memory::exec(lib);
    }
    fn run(&self, s: &mut Shm, phase: u32, journal: &str) -> Result<(), String> {
        let m = self.module.get().unwrap();
        let mut result = Ok(());
        if phase == 0 {
            let mut rt = dyon::Runtime::new();
            sim::explore(true);
            result = rt.run(m);
            drop(rt);
            let mut k = 0; while sim::live_threads() > 1 && k < 200_000 { std::thread::sleep(std::time::Duration::from_micros(100)); k += 1; }
            sim::explore(false);
            if sim::live_threads() > 1 { return Err(format!("thread never ends|{}", hist())); }
        }
        (self.judge)(&mut Run { result, s, phase, journal }).map_err(|e| if phase == 0 { format!("{e}{}", hist()) } else { e })
    }
}
