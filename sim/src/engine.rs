//! The search: seeded runs over workloads, schedules and fault sequences; minimisation; replay files; evidence.
use crate::rng::{hash_str, mix, Gen, Rng};
use crate::sim::{self, Cfg, Dev, Shm};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default, Debug)]
pub struct Probe { pub steps: u64, pub io_ops: u64, pub sync_ops: u64 }

/// One generated workload together with its oracle.
pub trait Plan {
    /// Source texts and operations, for replay files and samples.
    fn describe(&self) -> String;
    /// Chooses fault probabilities for one schedule.
    fn faults(&self, _r: &mut Rng, _c: &mut Cfg, _p: &Probe) {}
    /// Loads the modules of the workload (under the simulator, without exploration). Done once per workload; every
    /// run forks from the resulting state.
    fn setup(&self) -> Result<(), String> { Ok(()) }
    /// Puts files and standard input in place.
    fn prepare(&self, _s: &mut Shm) {}
    /// Runs the workload on the simulated main thread and judges the history. `Err` is a violation.
    fn run(&self, s: &mut Shm, phase: u32, journal: &str) -> Result<(), String>;
    /// Number of process lifetimes (2: a recovery process looks at what survived the first).
    fn phases(&self) -> u32 { 1 }
    fn ledger(&self) -> bool { false }
    /// One whole life of the workload - load, run, drop everything - without judging it (memory checks).
    fn exec(&self) {}
    fn max_steps(&self) -> u64 { 40_000_000 }
}
pub struct Scenario {
    pub prop: &'static str,
    pub name: &'static str,
    pub make: fn(&mut Gen) -> Box<dyn Plan>,
    /// (workloads, schedules per workload) of the quick tier
    pub quick: (u32, u32),
    pub thorough: u32, // factor on workloads
}

pub const CTRS: &[&str] = &["oracle_checks", "messages_checked", "threads_joined", "values_compared", "receivers_opened", "saves_checked",
    "loads_checked", "errors_caught", "recoveries", "module_calls", "lines_read", "sleeps_checked", "allocations_checked", "host_calls", "injected_script_errors", "programs_loaded", "compared_with_fresh_runtime", "workloads_outside_model"];
pub fn count(s: &mut Shm, name: &str, n: u64) { if let Some(i) = CTRS.iter().position(|x| *x == name) { s.ctr[i] += n; } }

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome { Pass, Violation(String), Harness(String) }
pub fn class(v: &str) -> &str { v.split('|').next().unwrap_or("") }

pub fn scenario_seed(base: u64, sc: &Scenario, i: u32) -> u64 { mix(mix(base, hash_str(sc.name)), i as u64) }

fn base_cfg(plan: &dyn Plan, w: u64, s: u32, probe: &Probe) -> Cfg {
    let mut r = Rng::new(mix(w, 0x5c4ed + s as u64));
    let mut c = Cfg { seed: mix(w, s as u64), max_steps: plan.max_steps(), slice: 20_000, step_ns: 20, max_faults: 12, max_switches: 20_000,
        disk_cap: 1 << 22, rng_seed: r.next(), epoch_ns: 1_700_000_000_000_000_000, ..Default::default() };
    let k = probe.steps.max(200);
    if s > 0 {
        c.strategy = [1, 2, 3, 4][r.weighted(&[32, 30, 20, 18])] as u32;
        let m = [4u64, 12, 40, 150, 600, 2500];
        c.mean = match c.strategy { 2 => k, 4 => [10u64, 40, 200][r.below(3)], _ => m[r.below(m.len())] };
        c.p_sync = [3000, 12000, 30000, 50000][r.below(4)];
        c.pct_depth = 1 + r.below(9) as u32;
        c.step_ns = [5u64, 20, 200][r.below(3)];
        if r.chance(1, 3) { c.pf[sim::F_SPURIOUS] = 3000; }
        if r.chance(1, 6) { c.pf[sim::D_STALL] = 600; }
        c.slice = [3000u64, 20_000, 60_000][r.below(3)];
        plan.faults(&mut r, &mut c, probe);
    }
    c
}

/// Runs the plan once in a forked process. Fills the shared block with counters and the deviation log.
pub fn run_once(shm: &mut Shm, plan: &dyn Plan, ready: bool, cfg: &Cfg, devs: Option<&[Dev]>, watchdog: u32) -> Outcome {
    let mut journal = String::new();
    let mut keep: Option<Kept> = None;
    for phase in 0..plan.phases() {
        sim::clear(shm, phase > 0);
        shm.cfg = *cfg;
        if phase == 0 {
            if let Some(d) = devs { shm.cfg.replay = 1; shm.ndev_in = d.len() as u32; shm.dev_in[..d.len()].copy_from_slice(d); }
            let sl = shm.cfg.stdin_len; plan.prepare(shm); if shm.cfg.stdin_len == 0 { shm.cfg.stdin_len = sl; }
        } else {
            shm.cfg.strategy = 0; shm.cfg.pf = [0; sim::NKIND]; shm.cfg.crash_io = 0; shm.cfg.disk_cap = 1 << 30; shm.cfg.replay = 0;
        }
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        if pid == 0 { child(shm, plan, ready, phase, &journal, watchdog); }
        if pid < 0 { return Outcome::Harness("fork failed".into()); }
        let mut st = 0;
        while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
        let o = judge(shm, plan, phase, st);
        if phase == 0 && plan.phases() > 1 { journal = shm.jour_str(); keep = Some(Kept::take(shm)); }
        if o != Outcome::Pass { if let Some(k) = keep { if phase > 0 { k.restore(shm); } } return o; }
    }
    if let Some(k) = keep { k.restore(shm); }
    Outcome::Pass
}
/// The measurements of phase 0 (the process lifetime with faults), kept while the recovery phase reuses the block.
struct Kept { dev: Vec<Dev>, steps: u64, switches: u64, sync_ops: u64, sim_ns: u64, io_ops: u64, th: u64, sh: u64, n: u32, f: [u32; sim::NKIND], ctr: [u64; 32] }
impl Kept {
    fn take(s: &Shm) -> Kept { Kept { dev: s.dev[..s.ndev as usize].to_vec(), steps: s.steps, switches: s.switches, sync_ops: s.sync_ops, sim_ns: s.sim_ns, io_ops: s.io_ops, th: s.trace_hash, sh: s.shape_hash, n: s.nthreads, f: s.fault_count, ctr: s.ctr } }
    fn restore(&self, s: &mut Shm) {
        s.ndev = self.dev.len() as u32; s.dev[..self.dev.len()].copy_from_slice(&self.dev);
        s.steps = self.steps; s.switches = self.switches; s.sync_ops = self.sync_ops; s.sim_ns = self.sim_ns; s.io_ops = self.io_ops; s.trace_hash = self.th; s.shape_hash = self.sh; s.nthreads = self.n; s.fault_count = self.f;
        for i in 0..32 { s.ctr[i] += self.ctr[i]; }
    }
}
/// Performs `Plan::setup` in this process, under the simulator with the default schedule.
fn setup(shm: &mut Shm, plan: &dyn Plan) -> Result<(), String> {
    let c = shm.cfg;
    shm.cfg = Cfg { max_steps: u64::MAX / 4, slice: 20_000, step_ns: 1, disk_cap: 1 << 22, rng_seed: 42, max_switches: u32::MAX, ..Default::default() };
    let n = shm.ndev_in; shm.ndev_in = 0;
    sim::start(shm);
    let r = plan.setup();
    sim::stop();
    shm.cfg = c; shm.ndev_in = n; shm.status = 0;
    r
}
/// Prepares a workload whose first run passed: later runs fork from the loaded state.
pub fn ready(shm: &mut Shm, plan: &dyn Plan) -> bool { if plan.ledger() { return false; } sim::clear(shm, false); setup(shm, plan).is_ok() }
fn child(shm: &mut Shm, plan: &dyn Plan, ready: bool, phase: u32, journal: &str, watchdog: u32) -> ! {
    unsafe {
        libc::alarm(watchdog);
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_DATA, &lim);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
    crate::host::reset();
    if plan.ledger() { crate::alloc::enable(); }
    if !ready {
        if let Err(e) = setup(shm, plan) { shm.push_msg(&e); shm.status = sim::ST_DONE; sim::exit(0); }
        shm.steps = 0; shm.sync_ops = 0; shm.switches = 0; shm.out_len = 0; shm.err_len = 0;
    }
    let sp = shm as *mut Shm as usize;
    let pp: usize = &plan as *const &dyn Plan as usize;
    let jp: usize = &journal as *const &str as usize;
    sim::start(shm);
    // The workload runs on a fresh simulated thread, so that per-thread hash keys come from the simulator.
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let (s, plan, j) = unsafe { (&mut *(sp as *mut Shm), *(pp as *const &dyn Plan), *(jp as *const &str)) };
        if plan.ledger() { crate::alloc::warm(); }
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| plan.run(s, phase, j))) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => s.push_msg(&e),
            Err(p) => { let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(); 
                // A workload outside of what the reference model covers decides nothing; it is counted.
                if t.starts_with("model:") { count(s, "workloads_outside_model", 1); } else { s.push_msg(&format!("panic in the calling thread|{t}")); } }
        }
        s.harness_done = 1;
    });
    match h { Ok(h) => { let _ = h.join(); } Err(_) => {} }
    sim::stop();
    sim::exit(0)
}
fn tail(s: &str) -> String { let v: Vec<&str> = s.lines().collect(); v[v.len().saturating_sub(6)..].join(" / ") }
fn judge(s: &Shm, plan: &dyn Plan, phase: u32, st: i32) -> Outcome {
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGALRM { return Outcome::Harness("watchdog".into()); }
        return Outcome::Violation(format!("process killed by signal {sig}|{}", tail(&s.err_str())));
    }
    match s.status {
        sim::ST_DONE => {
            if s.msg_len > 0 { return Outcome::Violation(s.msg_str()); }
            if s.harness_done == 0 { return Outcome::Violation(format!("main thread died|{}", tail(&s.err_str()))); }
            Outcome::Pass
        }
        sim::ST_CRASHED if plan.phases() > 1 && phase == 0 => Outcome::Pass,
        sim::ST_DEADLOCK => Outcome::Violation(format!("deadlock|no thread can run: {} {}", s.dead_str(), tail(&s.err_str()))),
        sim::ST_STEPS => Outcome::Violation(format!("no progress|step budget {} exhausted: {}", s.cfg.max_steps, s.dead_str())),
        sim::ST_SIMERR => Outcome::Harness(format!("simulator: {}", s.dead_str())),
        x => {
            if libc::WIFEXITED(st) && x == 0 { return Outcome::Violation(format!("process exited|exit status {} {}", libc::WEXITSTATUS(st), tail(&s.err_str()))); }
            Outcome::Harness(format!("status {x} wait {st:x}"))
        }
    }
}

// ---- replay files ---------------------------------------------------------------------------------------------
#[derive(Clone)]
pub struct Replay { pub prop: String, pub scenario: String, pub wseed: u64, pub drops: Vec<u32>, pub cfg: Cfg, pub devs: Vec<Dev>, pub violation: String, pub describe: String, pub trace_hash: u64 }
impl Replay {
    pub fn write(&self, path: &str) -> std::io::Result<()> {
        let c = &self.cfg;
        let mut o = String::new();
        let _ = writeln!(o, "dyonsim-replay 1\nproperty {}\nscenario {}\nwseed {}\ntrace_hash {}", self.prop, self.scenario, self.wseed, self.trace_hash);
        let _ = writeln!(o, "drops {}", self.drops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "cfg {} {} {} {} {} {} {} {} {} {} {} {} {} {}", c.seed, c.strategy, c.mean, c.p_sync, c.pct_depth, c.max_steps, c.slice, c.step_ns, c.epoch_ns, c.max_faults, c.max_switches, c.disk_cap, c.rng_seed, c.crash_io);
        for k in 0..sim::NKIND { if c.pf[k] > 0 { let _ = writeln!(o, "pf {} {} # {}", k, c.pf[k], sim::kind_name(k)); } }
        for d in &self.devs { let _ = writeln!(o, "dev {} {} {} {} # thread {} at its step {}: {}", d.tid, d.kind, d.lstep, d.arg, d.tid, d.lstep, sim::kind_name(d.kind as usize)); }
        let _ = writeln!(o, "violation {}", self.violation.replace('\n', "\\n"));
        for l in self.describe.lines() { let _ = writeln!(o, "# {l}"); }
        std::fs::write(path, o)
    }
    pub fn read(path: &str) -> Result<Replay, String> {
        let t = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let mut r = Replay { prop: String::new(), scenario: String::new(), wseed: 0, drops: vec![], cfg: Cfg::default(), devs: vec![], violation: String::new(), describe: String::new(), trace_hash: 0 };
        for l in t.lines() {
            if l.starts_with('#') { continue; }
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            let v0 = if k == "violation" { v } else { v.split('#').next().unwrap().trim() };
            let n = || -> Vec<u64> { v0.split_whitespace().map(|x| x.parse::<i64>().map(|y| y as u64).or(x.parse::<u64>()).unwrap_or(0)).collect() };
            match k {
                "property" => r.prop = v0.into(), "scenario" => r.scenario = v0.into(), "wseed" => r.wseed = v0.parse().unwrap_or(0), "trace_hash" => r.trace_hash = v0.parse().unwrap_or(0),
                "drops" => r.drops = n().iter().map(|x| *x as u32).collect(),
                "cfg" => { let a = n(); if a.len() != 14 { return Err("bad cfg line".into()); } let c = &mut r.cfg; c.seed = a[0]; c.strategy = a[1] as u32; c.mean = a[2]; c.p_sync = a[3] as u32; c.pct_depth = a[4] as u32; c.max_steps = a[5]; c.slice = a[6]; c.step_ns = a[7]; c.epoch_ns = a[8] as i64; c.max_faults = a[9] as u32; c.max_switches = a[10] as u32; c.disk_cap = a[11]; c.rng_seed = a[12]; c.crash_io = a[13]; }
                "pf" => { let a = n(); r.cfg.pf[a[0] as usize] = a[1] as u32; }
                "dev" => { let a = n(); r.devs.push(Dev { tid: a[0] as u32, kind: a[1] as u32, lstep: a[2], arg: a[3] }); }
                "violation" => r.violation = v.into(),
                _ => {}
            }
        }
        Ok(r)
    }
}

// ---- statistics -----------------------------------------------------------------------------------------------
#[derive(Default)]
pub struct Stats { pub runs: u64, pub programs: u64, pub steps: u64, pub switches: u64, pub sync_ops: u64, pub io_ops: u64, pub sim_ns: u64, pub threads: u64, pub max_threads: u64, pub faults: [u64; sim::NKIND], pub faulted_runs: u64, pub shapes: HashSet<u64>, pub ctr: [u64; 32], pub known: BTreeMap<String, u64>, pub det: u64, pub samples: Vec<String> }
impl Stats {
    fn add(&mut self, s: &Shm, wseed: u64) {
        self.runs += 1; self.steps += s.steps; self.switches += s.switches; self.sync_ops += s.sync_ops; self.io_ops += s.io_ops; self.sim_ns += s.sim_ns; self.threads += s.nthreads as u64; self.max_threads = self.max_threads.max(s.nthreads as u64);
        let mut f = false;
        for k in 0..sim::NKIND { self.faults[k] += s.fault_count[k] as u64; if k >= 3 && s.fault_count[k] > 0 { f = true; } }
        if f { self.faulted_runs += 1; }
        for k in 0..32 { self.ctr[k] += s.ctr[k]; }
        if s.switches > 0 || f { let mut h = mix(wseed, s.shape_hash); for k in 3..sim::NKIND { h = mix(h, s.fault_count[k] as u64); } self.shapes.insert(h); }
    }
    fn dump(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "n {} {} {} {} {} {} {} {} {} {} {}", self.runs, self.programs, self.steps, self.switches, self.sync_ops, self.io_ops, self.sim_ns, self.threads, self.max_threads, self.faulted_runs, self.det);
        let _ = writeln!(o, "f {}", self.faults.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "c {}", self.ctr.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for (k, n) in &self.known { let _ = writeln!(o, "k {n} {}", k.replace('\n', " ")); }
        for s in &self.samples { let _ = writeln!(o, "s {}", s.replace('\n', "\\n")); }
        let _ = writeln!(o, "h {}", self.shapes.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
        o
    }
    fn merge_line(&mut self, l: &str) {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let n = || v.split_whitespace().map(|x| x.parse::<u64>().unwrap_or(0)).collect::<Vec<_>>();
        match k {
            "n" => { let a = n(); self.runs += a[0]; self.programs += a[1]; self.steps += a[2]; self.switches += a[3]; self.sync_ops += a[4]; self.io_ops += a[5]; self.sim_ns += a[6]; self.threads += a[7]; self.max_threads = self.max_threads.max(a[8]); self.faulted_runs += a[9]; self.det += a[10]; }
            "f" => for (i, x) in n().iter().enumerate().take(sim::NKIND) { self.faults[i] += x; },
            "c" => for (i, x) in n().iter().enumerate().take(32) { self.ctr[i] += x; },
            "k" => { let (c, t) = v.split_once(' ').unwrap_or((v, "")); *self.known.entry(t.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0); }
            "s" => self.samples.push(v.replace("\\n", "\n")),
            "h" => for x in v.split_whitespace() { if let Ok(y) = u64::from_str_radix(x, 16) { self.shapes.insert(y); } },
            _ => {}
        }
    }
}

// ---- known findings -------------------------------------------------------------------------------------------
pub struct Finding { pub prop: String, pub needle: String, pub text: String }
/// Lines: `finding: property=<id> match="<text that the violation must contain>" <description>`
pub fn load_findings(path: &str) -> Vec<Finding> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            let (p, rest) = r.split_once(' ').unwrap_or((r, ""));
            if let Some(m) = rest.strip_prefix("match=\"") { if let Some((needle, text)) = m.split_once('"') { v.push(Finding { prop: p.into(), needle: needle.into(), text: text.trim().into() }); } }
        }
    }
    v
}

// ---- search ---------------------------------------------------------------------------------------------------
pub struct Opts { pub prop: String, pub tier: String, pub seed: u64, pub verif: String, pub only: Option<String>, pub workers: usize, pub cap_s: f64 }

struct Found { scen: usize, wseed: u64, cfg: Cfg, devs: Vec<Dev>, text: String }

pub fn check(scens: &[Scenario], o: &Opts) -> i32 {
    let t0 = Instant::now();
    let mine: Vec<&Scenario> = scens.iter().filter(|s| s.prop == o.prop && o.only.as_ref().map_or(true, |n| n == s.name)).collect();
    if mine.is_empty() { eprintln!("no scenario decides {}", o.prop); return 2; }
    let findings: Vec<Finding> = load_findings(&format!("{}/KNOWN_FINDINGS.txt", o.verif)).into_iter().filter(|f| f.prop == o.prop).collect();
    let thorough = o.tier == "thorough";
    // Work list: interleave scenarios so that a time cap cuts all of them alike.
    let mut work: Vec<(u32, usize)> = vec![];
    for (si, s) in mine.iter().enumerate() { let n = s.quick.0 * if thorough { s.thorough } else { 1 }; for i in 0..n { work.push(((i as u64 * 1_000_000 / n as u64) as u32, si)); } }
    work.sort();
    let mut seen = vec![0u32; mine.len()];
    let work: Vec<(usize, u32)> = work.iter().map(|&(_, si)| { let i = seen[si]; seen[si] += 1; (si, i) }).collect();
    let next = sim::alloc_bytes(4096); // shared work counter + stop flag
    let ctr = unsafe { &*(next.as_ptr() as *const std::sync::atomic::AtomicU64) };
    let stop = unsafe { &*(next.as_ptr().add(8) as *const std::sync::atomic::AtomicU64) };
    let cov = sim::alloc_bytes(sim::cov_n() + 1);
    sim::set_cov(cov);
    let dir = format!("{}/target/run-{}", o.verif, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let deadline = t0 + Duration::from_secs_f64(o.cap_s);
    let mut pids = vec![];
    for w in 0..o.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let code = worker(&mine, &work, ctr, stop, o, &findings, deadline, &format!("{dir}/w{w}"));
            unsafe { libc::_exit(code) }
        }
        pids.push(pid);
    }
    let mut harness = false;
    for p in &pids { let mut st = 0; unsafe { while libc::waitpid(*p, &mut st, 0) < 0 {} } if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 { harness = true; } }
    let mut stats = Stats::default();
    let mut viol: Option<String> = None; let mut nviol = 0; let mut herr = vec![]; let mut ndet = 0u64;
    for w in 0..o.workers {
        if let Ok(f) = std::fs::File::open(format!("{dir}/w{w}")) {
            for l in std::io::BufReader::new(f).lines().map_while(Result::ok) {
                if let Some(v) = l.strip_prefix("V ") { nviol += 1; if viol.is_none() { viol = Some(v.into()); } }
                else if let Some(v) = l.strip_prefix("E ") { herr.push(v.to_string()); }
                else if let Some(v) = l.strip_prefix("D ") { ndet += 1; eprintln!("note: {v}"); }
                else { stats.merge_line(&l); }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let done = stats.programs; let total = work.len() as u64;
    let edges = cov.iter().filter(|x| **x != 0).count();
    write_evidence(o, &mine, &stats, t0.elapsed().as_secs_f64(), nviol, edges, done, total, ndet);
    for f in &findings { println!("KNOWN-FINDING: property={} {} [seen {} times in this run]", o.prop, f.text, stats.known.get(&f.needle).unwrap_or(&0)); }
    println!("{}: {} runs of {}/{} workloads, {} distinct interleavings, {} context switches, {} runs with faults, {:.1} s", o.prop, stats.runs, done, total, stats.shapes.len(), stats.switches, stats.faulted_runs, t0.elapsed().as_secs_f64());
    if let Some(v) = viol {
        let (path, text) = v.split_once('\t').unwrap_or((&v, ""));
        println!("{}", text.replace("\\n", "\n"));
        println!("VIOLATION property={} replay={}", o.prop, path);
        return 1;
    }
    if harness || !herr.is_empty() { for e in &herr { eprintln!("harness error: {e}"); } if harness { eprintln!("a worker died"); } return 2; }
    if stats.runs == 0 { eprintln!("nothing was run"); return 2; }
    0
}

#[allow(clippy::too_many_arguments)]
fn worker(mine: &[&Scenario], work: &[(usize, u32)], ctr: &std::sync::atomic::AtomicU64, stop: &std::sync::atomic::AtomicU64, o: &Opts, findings: &[Finding], deadline: Instant, out: &str) -> i32 {
    use std::sync::atomic::Ordering::SeqCst;
    let shm = sim::alloc_shm();
    let mut st = Stats::default();
    let mut extra = String::new();
    let known = |text: &str| findings.iter().find(|f| text.contains(&f.needle)).map(|f| f.needle.clone());
    let rc = 0;
    'all: loop {
        let i = ctr.fetch_add(1, SeqCst) as usize;
        if i >= work.len() || stop.load(SeqCst) != 0 || Instant::now() > deadline { break; }
        let (si, idx) = work[i];
        let sc = mine[si];
        let w = scenario_seed(o.seed, sc, idx);
        let plan = (sc.make)(&mut Gen::new(w, &[]));
        let mut probe = Probe::default();
        let mut hit_known = 0; let mut rdy = false;
        st.programs += 1;
        for s in 0..sc.quick.1 {
            let cfg = base_cfg(&*plan, w, s, &probe);
            let mut out = run_once(shm, &*plan, rdy, &cfg, None, 60);
            if out == Outcome::Harness("watchdog".into()) { out = run_once(shm, &*plan, rdy, &cfg, None, 120); if out == Outcome::Harness("watchdog".into()) { out = Outcome::Violation("hang|no simulated progress for 120 s of real time".into()); } }
            st.add(shm, w);
            if s == 0 { probe = Probe { steps: shm.steps, io_ops: shm.io_ops, sync_ops: shm.sync_ops }; }
            if st.samples.len() < 1 && (s == 3 || s + 1 == sc.quick.1) {
                st.samples.push(format!("scenario={} wseed={} schedule={} strategy={} steps={} switches={} deviations={} faults={:?} outcome={:?}\n{}", sc.name, w, s, cfg.strategy, shm.steps, shm.switches, shm.ndev,
                    (0..sim::NKIND).filter(|k| shm.fault_count[*k] > 0).map(|k| format!("{}x{}", sim::kind_name(k), shm.fault_count[k])).collect::<Vec<_>>(), out, clip(&plan.describe(), 1500)));
            }
            match out {
                Outcome::Pass => {
                    // Determinism: replay a sample of the passing runs from their deviation log.
                    if s > 0 && mix(w, s as u64) % 61 == 0 && (shm.ndev as usize) < sim::MAX_DEV {
                        let devs = shm.dev[..shm.ndev as usize].to_vec(); let (h, n) = (shm.trace_hash, shm.steps);
                        let r = run_once(shm, &*plan, rdy, &cfg, Some(&devs), 60);
                        if r != Outcome::Pass || shm.trace_hash != h || shm.steps != n { let _ = writeln!(extra, "D replay differs: scenario={} wseed={} s={} {:?} hash {:x}/{:x} steps {}/{}", sc.name, w, s, r, h, shm.trace_hash, n, shm.steps);  }
                        st.det += 1;
                    }
                }
                Outcome::Violation(text) => {
                    if let Some(k) = known(&text) { *st.known.entry(k).or_insert(0) += 1; hit_known += 1; if hit_known > 3 { continue 'all; } continue; }
                    if stop.swap(1, SeqCst) == 0 {
                        let devs = shm.dev[..shm.ndev as usize].to_vec();
                        let f = Found { scen: si, wseed: w, cfg, devs, text };
                        let r = minimise(shm, mine, f, findings);
                        let path = format!("{}/replays/{}-{}-{:016x}.replay", o.verif, o.prop, sc.name, w);
                        let _ = std::fs::create_dir_all(format!("{}/replays", o.verif));
                        if let Err(e) = r.write(&path) { let _ = writeln!(extra, "E cannot write {path}: {e}"); }
                        let _ = writeln!(extra, "V {}\tscenario {} workload seed {} ({} deviations after minimisation)\\n{}\\n{}", path, r.scenario, r.wseed, r.devs.len(), clip(&r.violation, 3000).replace('\n', "\\n"), clip(&r.describe, 6000).replace('\n', "\\n"));
                    }
                    break 'all;
                }
                Outcome::Harness(e) => { let _ = writeln!(extra, "E scenario={} wseed={} s={}: {}", sc.name, w, s, e); break 'all; }
            }
            if s == 0 { rdy = ready(shm, &*plan); }
            if Instant::now() > deadline { break; }
        }
    }
    let _ = std::fs::write(out, st.dump() + &extra);
    rc
}
pub fn clip(s: &str, n: usize) -> String { if s.len() <= n { s.into() } else { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } }

/// Checks in a throw-away process that setup succeeds, then does it here.
fn setup_probe(shm: &mut Shm, plan: &dyn Plan) -> bool {
    sim::clear(shm, false);
    let pid = unsafe { libc::fork() };
    if pid == 0 { unsafe { libc::alarm(60); } let r = setup(shm, plan); sim::exit(if r.is_ok() { 0 } else { 1 }); }
    let mut st = 0; unsafe { libc::waitpid(pid, &mut st, 0); }
    libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && ready(shm, plan)
}
/// Shrinks the workload (dropping generated items) and the deviation list while the same kind of violation remains.
fn minimise(shm: &mut Shm, mine: &[&Scenario], f: Found, findings: &[Finding]) -> Replay {
    let sc = mine[f.scen];
    let t0 = Instant::now();
    let cls = class(&f.text).to_string();
    let same = |o: &Outcome| match o { Outcome::Violation(t) => class(t) == cls && !findings.iter().any(|f| t.contains(&f.needle)), _ => false };
    let mut best = (vec![] as Vec<u32>, f.cfg, f.devs.clone(), f.text.clone());
    let plan0 = (sc.make)(&mut Gen::new(f.wseed, &[]));
    let r0 = run_once(shm, &*plan0, false, &f.cfg, Some(&f.devs), 60);
    let reproducible = same(&r0);
    if reproducible && f.devs.len() < sim::MAX_DEV - 1 {
        let mut g = Gen::new(f.wseed, &[]); let _ = (sc.make)(&mut g); let items = g.items;
        // workload
        let mut chunk = (items as usize / 2).max(1);
        let mut left: Vec<u32> = (0..items).collect();
        while items > 1 && t0.elapsed().as_secs_f64() < 25.0 {
            let mut i = 0; let mut any = false;
            while i < left.len() && t0.elapsed().as_secs_f64() < 25.0 {
                let cut: Vec<u32> = left[i..(i + chunk).min(left.len())].to_vec();
                let mut d = best.0.clone(); d.extend(&cut);
                let plan = (sc.make)(&mut Gen::new(f.wseed, &d));
                let mut hit = None;
                let o = run_once(shm, &*plan, false, &best.1, Some(&best.2), 60);
                let mut rdy = false;
                if same(&o) { hit = Some((best.1, o)); }
                else {
                    let mut probe = Probe::default();
                    for s in 0..24u32 {
                        if t0.elapsed().as_secs_f64() > 25.0 { break; }
                        let mut c = if s == 0 { best.1 } else { base_cfg(&*plan, mix(f.wseed, 77), if s == 1 { 0 } else { s }, &probe) };
                        c.pf = best.1.pf; c.crash_io = best.1.crash_io; c.disk_cap = best.1.disk_cap; c.max_faults = best.1.max_faults; c.epoch_ns = best.1.epoch_ns;
                        let o = run_once(shm, &*plan, rdy, &c, None, 60);
                        if o == Outcome::Pass && !rdy { let (a, b) = (shm.steps, shm.io_ops); rdy = ready(shm, &*plan); shm.steps = a; shm.io_ops = b; }
                        probe = Probe { steps: shm.steps, io_ops: shm.io_ops, sync_ops: shm.sync_ops };
                        if same(&o) { hit = Some((c, o)); break; }
                    }
                }
                if let Some((c, Outcome::Violation(t))) = hit {
                    let devs = shm.dev[..shm.ndev as usize].to_vec();
                    best = (d, c, devs, t); left.drain(i..(i + chunk).min(left.len())); any = true;
                } else { i += chunk; }
            }
            if chunk == 1 && !any { break; }
            if !any { chunk = (chunk / 2).max(1); }
        }
        // schedule and faults
        let plan = (sc.make)(&mut Gen::new(f.wseed, &best.0));
        let t1 = Instant::now();
        let rdy = setup_probe(shm, &*plan);
        let mut n = 2usize;
        while best.2.len() > 0 && t1.elapsed().as_secs_f64() < 20.0 {
            let len = best.2.len(); let sz = (len + n - 1) / n; let mut red = false;
            let mut i = 0;
            while i < len && t1.elapsed().as_secs_f64() < 20.0 {
                let mut d = best.2.clone(); let e = (i + sz).min(d.len()); if i >= d.len() { break; } d.drain(i..e);
                let o = run_once(shm, &*plan, rdy, &best.1, Some(&d), 60);
                if same(&o) { if let Outcome::Violation(t) = o { let nd = shm.dev[..shm.ndev as usize].to_vec(); best.2 = if nd.len() <= d.len() { nd } else { d }; best.3 = t; red = true; } } else { i += sz; }
            }
            if !red { if sz <= 1 { break; } n = (n * 2).min(len.max(2)); } else { n = n.max(2).min(best.2.len().max(2)); }
        }
    }
    let plan = (sc.make)(&mut Gen::new(f.wseed, &best.0));
    let o = run_once(shm, &*plan, false, &best.1, Some(&best.2), 60);
    let h = shm.trace_hash;
    let note = if same(&o) { "" } else { " (the replay did not reproduce this violation: harness nondeterminism)" };
    Replay { prop: sc.prop.into(), scenario: sc.name.into(), wseed: f.wseed, drops: best.0, cfg: best.1, devs: best.2, violation: format!("{}{}", best.3, note), describe: plan.describe(), trace_hash: h }
}

/// Re-executes a replay file; exit status 1 and the VIOLATION line if it reproduces.
pub fn replay(scens: &[Scenario], path: &str, verbose: bool) -> i32 {
    let r = match Replay::read(path) { Ok(r) => r, Err(e) => { eprintln!("{e}"); return 2; } };
    let sc = match scens.iter().find(|s| s.name == r.scenario && s.prop == r.prop) { Some(s) => s, None => { eprintln!("unknown scenario {}", r.scenario); return 2; } };
    let shm = sim::alloc_shm();
    let plan = (sc.make)(&mut Gen::new(r.wseed, &r.drops));
    let o = run_once(shm, &*plan, false, &r.cfg, Some(&r.devs), 120);
    if verbose { println!("{}", plan.describe()); println!("stderr: {}", shm.err_str()); println!("stdout: {}", String::from_utf8_lossy(shm.out_bytes())); }
    println!("steps {} switches {} trace_hash {} (recorded {})", shm.steps, shm.switches, shm.trace_hash, r.trace_hash);
    match o {
        Outcome::Violation(t) => { println!("{}", t); println!("VIOLATION property={} replay={}", r.prop, path); 1 }
        Outcome::Pass => { println!("no violation"); 0 }
        Outcome::Harness(e) => { eprintln!("harness error: {e}"); 2 }
    }
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
#[allow(clippy::too_many_arguments)]
fn write_evidence(o: &Opts, mine: &[&Scenario], st: &Stats, wall: f64, viol: u64, edges: usize, done: u64, total: u64, ndet: u64) {
    let mut e = String::new();
    let faults: Vec<String> = (1..sim::NKIND).filter(|k| st.faults[*k] > 0).map(|k| format!("{}: {}", js(sim::kind_name(k)), st.faults[k])).collect();
    let ctr: Vec<String> = CTRS.iter().enumerate().filter(|(i, _)| st.ctr[*i] > 0).map(|(i, n)| format!("{}: {}", js(n), st.ctr[i])).collect();
    let samples: Vec<String> = st.samples.iter().take(3).map(|s| js(s)).collect();
    let real = "dyon (parser, checkers, AST conversion, runtime, standard library, threads, channels: the /repo working tree), Rust std synchronisation, I/O and thread code";
    let stub = "operating system below libc (futex, threads start/join, clocks, sleep, entropy, files, standard streams) and, for C16, the HTTP transport (crate reqwest)";
    let _ = write!(e, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.2}, \"violations\": {},\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n", js(&o.prop), js(&o.tier), o.seed, wall, viol, st.runs, st.shapes.len(),
        js("One evaluation is one simulated execution of a generated workload under one seeded schedule and fault sequence. Two executions are distinct if their workload, their order of synchronisation and I/O operations across threads, or their injected faults differ; an execution without any context switch and without any injected fault is trivial and not counted."));
    let _ = write!(e, "  \"scenarios\": [{}],\n  \"workloads_run\": {}, \"workloads_planned\": {},\n", mine.iter().map(|s| js(s.name)).collect::<Vec<_>>().join(", "), done, total);
    let _ = write!(e, "  \"runs_per_hour\": {:.0}, \"workload_seeds_per_hour\": {:.0}, \"simulated_seconds\": {:.3}, \"scheduler_steps\": {}, \"context_switches\": {}, \"sync_and_io_operations\": {}, \"simulated_threads\": {}, \"max_threads_in_one_run\": {}, \"runs_with_injected_faults\": {},\n", st.runs as f64 / wall * 3600.0, done as f64 / wall * 3600.0, st.sim_ns as f64 / 1e9, st.steps, st.switches, st.sync_ops, st.threads, st.max_threads, st.faulted_runs);
    let _ = write!(e, "  \"faults_injected\": {{{}}},\n  \"oracle\": {{{}}},\n  \"code_edges_reached_in_dyon\": {}, \"code_edges_in_dyon\": {}, \"replays_compared_bit_for_bit\": {}, \"replays_that_differed\": {},\n", faults.join(", "), ctr.join(", "), edges, sim::cov_n(), st.det, ndet);
    let _ = write!(e, "  \"known_findings_seen\": {},\n  \"real_components\": {}, \"stub_components\": {},\n  \"samples\": [{}]\n }},\n", st.known.values().sum::<u64>(), js(real), js(stub), samples.join(",\n   "));
    let _ = write!(e, " \"assumptions\": [{}]\n}}\n", [
        "Preemption happens between basic blocks of dyon (including std generics compiled into it) and at intercepted libc calls; instructions inside one block and inside uninstrumented std code are atomic.",
        "Memory is sequentially consistent in the simulation: one thread runs at a time.",
        "A seeded sample of workloads, schedules and faults was searched, not all of them."].iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    let _ = std::fs::write(format!("{}/evidence/{}.json", o.verif, o.prop), e);
}
pub fn test_cfg(plan: &dyn Plan, w: u64, s: u32) -> Cfg { base_cfg(plan, w, s, &Probe { steps: 3000, io_ops: 20, sync_ops: 50 }) }
/// Debug aid: runs one schedule and its replay, and reports the first difference.
pub fn determinism(sc: &Scenario, w: u64, s: u32) {
    let shm = sim::alloc_shm();
    let plan = (sc.make)(&mut Gen::new(w, &[]));
    run_once(shm, &*plan, false, &base_cfg(&*plan, w, 0, &Probe::default()), None, 60);
    let probe = Probe { steps: shm.steps, io_ops: shm.io_ops, sync_ops: shm.sync_ops };
    let rdy = ready(shm, &*plan);
    let cfg = base_cfg(&*plan, w, s, &probe);
    println!("{cfg:?}");
    let o = run_once(shm, &*plan, rdy, &cfg, None, 60);
    let a = shm.dev[..shm.ndev as usize].to_vec(); let ha = shm.trace_hash; let sa = shm.steps;
    let o2 = run_once(shm, &*plan, rdy, &cfg, None, 60);
    println!("explore {o:?} hash {ha:x} steps {sa}; explore again {o2:?} hash {:x} steps {}", shm.trace_hash, shm.steps);
    let o3 = run_once(shm, &*plan, rdy, &cfg, Some(&a), 60);
    let b = shm.dev[..shm.ndev as usize].to_vec();
    println!("replay {o3:?} hash {:x} steps {}", shm.trace_hash, shm.steps);
    for i in 0..a.len().max(b.len()) { if a.get(i) != b.get(i) { for j in i.saturating_sub(4)..i + 4 { println!("{j}: {:?} / {:?}", a.get(j), b.get(j)); } break; } }
}
