//! dyonsim: deterministic simulation of Dyon programs with fault injection.
#![allow(clippy::all, dead_code, static_mut_refs)]
mod alloc;
mod corpus;
mod data;
mod engine;
mod host;
mod lit;
mod prog;
mod rng;
mod scen;
mod sim;
mod val;
use std::sync::Arc;

#[global_allocator]
static GLOBAL: alloc::Ledger = alloc::Ledger;

fn warm() {
    // The grammar is compiled once per process, before any simulated run is forked.
    let mut w = host::base();
    dyon::load_str("warm.dyon", Arc::new("fn main() { println(1) }".into()), &mut w).ok();
}
struct RunPlan(String);
impl engine::Plan for RunPlan {
    fn describe(&self) -> String { self.0.clone() }
    fn run(&self, s: &mut sim::Shm, _p: u32, _j: &str) -> Result<(), String> {
        let m = host::load("main.dyon", &self.0)?;
        sim::explore(true);
        let mut rt = dyon::Runtime::new();
        let r = rt.run(&Arc::new(m));
        for e in host::events().iter() { s.push_msg(&format!("T{} {} {}\n", e.tid, e.t, e.v.render())); }
        s.push_msg(&format!("result {:?}\n", r));
        Ok(())
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    std::env::set_var("RUST_BACKTRACE", "0");
    sim::init();
    warm();
    let scens = scen::all();
    let code = match arg(1).as_str() {
        "check" => {
            let tier = if arg(3).is_empty() { "quick".into() } else { arg(3) };
            let envn = |k: &str, d: f64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
            let cap = envn("DYONSIM_CAP", if tier == "thorough" { 650.0 } else { 150.0 });
            engine::check(&scens, &engine::Opts { prop: arg(2), seed: envn("VERIF_SEED", 1.0) as u64, only: std::env::var("DYONSIM_ONLY").ok(), verif: std::env::var("DYONSIM_VERIF").unwrap_or("/verif".into()), workers: envn("DYONSIM_WORKERS", 8.0) as usize, cap_s: cap, tier })
        }
        "replay" => engine::replay(&scens, &arg(2), arg(3) == "-v"),
        "det" => { let s = scens.iter().find(|s| s.name == arg(2)).expect("scenario"); engine::determinism(s, arg(3).parse().unwrap(), arg(4).parse().unwrap()); 0 }
        "list" => { for s in &scens { println!("{} {} {:?} x{}", s.prop, s.name, s.quick, s.thorough); } 0 }
        "show" => { // show scenario name, workload index
            let s = scens.iter().find(|s| s.name == arg(2)).expect("scenario");
            let w = engine::scenario_seed(1, s, arg(3).parse().unwrap_or(0));
            let p = (s.make)(&mut rng::Gen::new(w, &[]));
            println!("{}", p.describe());
            let shm = sim::alloc_shm();
            let n: u64 = arg(4).parse().unwrap_or(1);
            for k in 0..n {
                let c = engine::test_cfg(&*p, w, k as u32);
                let o = engine::run_once(shm, &*p, false, &c, None, 60);
                println!("{:?} steps {} io {} threads {} faults {:?}", o, shm.steps, shm.io_ops, shm.nthreads, shm.fault_count);
                if !shm.err_str().is_empty() { println!("stderr {}", engine::clip(&shm.err_str(), 2000)); }
            }
            0
        }
        "sweep" => { // sweep scenario workloads schedules: counts of outcome classes
            let s = scens.iter().find(|s| s.name == arg(2)).expect("scenario");
            let shm = sim::alloc_shm(); let mut cls: std::collections::BTreeMap<String, (u32, u32, String)> = Default::default();
            let (n, k): (u32, u32) = (arg(3).parse().unwrap_or(50), arg(4).parse().unwrap_or(2));
            let (mut steps, mut thr, mut ev) = (0u64, 0u64, [0u64; 32]);
            let t0 = std::time::Instant::now();
            for i in 0..n {
                let w = engine::scenario_seed(1, s, i); let p = (s.make)(&mut rng::Gen::new(w, &[])); let mut rdy = false;
                for j in 0..k {
                    let c = engine::test_cfg(&*p, w, j);
                    let o = engine::run_once(shm, &*p, rdy, &c, None, 60);
                    steps += shm.steps; thr += shm.nthreads as u64; for z in 0..32 { ev[z] += shm.ctr[z]; }
                    let (a, b) = match o { engine::Outcome::Pass => ("pass".to_string(), String::new()), engine::Outcome::Violation(t) => (engine::class(&t).to_string(), t), engine::Outcome::Harness(t) => (format!("HARNESS {t}"), t) };
                    let e = cls.entry(a).or_insert((0, i, b)); e.0 += 1;
                    if j == 0 { rdy = engine::ready(shm, &*p); if !rdy && !p.ledger() { break; } }
                }
            }
            for (c, (n, i, t)) in &cls { println!("{n} x {c} (first index {i}) {}", engine::clip(t, 700)); }
            println!("steps/run {} threads/run {:.1} time {:.1}s {:?}", steps / (n * k) as u64, thr as f64 / (n * k) as f64, t0.elapsed().as_secs_f64(), engine::CTRS.iter().enumerate().filter(|(i, _)| ev[*i] > 0).map(|(i, n)| format!("{n}={}", ev[i])).collect::<Vec<_>>());
            0
        }
        "run" => {
            let p = RunPlan(std::fs::read_to_string(arg(2)).expect("file"));
            let shm = sim::alloc_shm();
            let c = engine::test_cfg(&p, arg(3).parse().unwrap_or(1), if arg(3).is_empty() { 0 } else { 1 });
            let o = engine::run_once(shm, &p, false, &c, None, 60);
            if let engine::Outcome::Violation(t) = &o { println!("{t}"); } else { println!("{o:?}"); }
            println!("stdout: {}stderr: {}", String::from_utf8_lossy(shm.out_bytes()), shm.err_str());
            0
        }
        _ => { eprintln!("usage: dyonsim check <property> [quick|thorough] | replay <file> [-v] | list | show <scenario> <n> | run <file>"); 2 }
    };
    std::process::exit(code);
}
