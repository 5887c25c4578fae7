//! Host side of the scripts under test: history recorder and host functions registered in the module.
//! Runs while holding the simulator's token and contains no scheduling point of its own, so plain statics suffice.
use crate::val::{self, Val};
use crate::{alloc, sim};
use dyon::{Dfn, Module, Runtime, Type, Variable};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Ev { pub tid: u32, pub t: u64, pub v: Val }
static mut EVS: Vec<Ev> = Vec::new();
static mut FAULTS: Vec<(u32, bool)> = Vec::new();
static mut BAD: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
pub fn events() -> &'static mut Vec<Ev> { unsafe { &mut EVS } }
#[allow(static_mut_refs)]
pub fn faults() -> &'static mut Vec<(u32, bool)> { unsafe { &mut FAULTS } }
#[allow(static_mut_refs)]
pub fn bad() -> &'static mut Vec<String> { unsafe { &mut BAD } }
pub fn reset() { unsafe { FORCE = None; } events().clear(); faults().clear(); bad().clear(); }
pub fn record(v: Val) { alloc::harness(true); events().push(Ev { tid: sim::tid(), t: sim::now(), v }); alloc::harness(false); }

fn h_ev(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().ok_or("empty stack")?;
    alloc::harness(true);
    let x = val::of(rt, &v);
    events().push(Ev { tid: sim::tid(), t: sim::now(), v: x });
    alloc::harness(false);
    Ok(())
}
/// A message as it came out of a receiver.
fn h_msg(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().ok_or("empty stack")?;
    alloc::harness(true);
    // the message itself is a local variable of the script; inside it there must be no reference
    let refs = match rt.get(&v) { Variable::Array(a) => a.last().map_or(false, |m| val::has_ref(&rt.get(m).clone())), _ => true };
    let x = if refs { Val::Other("REFERENCE".into()) } else { val::of(rt, &v) };
    events().push(Ev { tid: sim::tid(), t: sim::now(), v: Val::Arr(vec![Val::str("msg"), x]) });
    alloc::harness(false);
    Ok(())
}
/// Decisions to repeat instead of asking the simulator.
pub static mut FORCE: Option<std::collections::VecDeque<bool>> = None;
/// Returns an error when the simulator decides so; the decision is part of the fault trace.
#[allow(static_mut_refs)]
fn h_fault(_rt: &mut Runtime) -> Result<(), String> {
    let f = match unsafe { FORCE.as_mut() } { Some(v) => v.pop_front().unwrap_or(false), None => sim::host_fault(sim::F_HOST, 1).is_some() };
    alloc::harness(true); faults().push((sim::tid(), f)); alloc::harness(false);
    if f { Err("injected fault".into()) } else { Ok(()) }
}
fn h_fault_ret(rt: &mut Runtime) -> Result<Variable, String> {
    let v: f64 = rt.pop()?;
    h_fault(rt)?;
    Ok(Variable::f64(v))
}
fn h_boom(rt: &mut Runtime) -> Result<(), String> { let m: Arc<String> = rt.pop()?; std::panic::panic_any(format!("host panic {m}")) }
fn h_yield(_rt: &mut Runtime) -> Result<(), String> { sim::yield_point(); Ok(()) }
/// Size of the runtime's stacks: (stack, calls, locals, currents).
fn h_depth(rt: &mut Runtime) -> Result<Variable, String> {
    let v = [rt.stack.len(), rt.call_stack.len(), rt.local_stack.len(), rt.current_stack.len()];
    Ok(Variable::Array(Arc::new(v.iter().map(|x| Variable::f64(*x as f64)).collect())))
}
fn h_clock(_rt: &mut Runtime) -> Result<Variable, String> { Ok(Variable::f64(sim::now() as f64 / 1e9)) }
/// Applies nothing, returns its argument (a host function in the middle of a call chain).
fn h_same(rt: &mut Runtime) -> Result<Variable, String> { let v = rt.stack.pop().ok_or("empty stack")?; Ok(rt.get(&v).clone()) }

static mut VALS: Vec<Val> = Vec::new();
/// Values the script can ask for with `val(k)`.
#[allow(static_mut_refs)]
pub fn vals() -> &'static mut Vec<Val> { unsafe { &mut VALS } }
fn h_val(rt: &mut Runtime) -> Result<Variable, String> {
    let k: f64 = rt.pop()?;
    Ok(crate::scen::to_var(&vals()[k as usize]).expect("representable"))
}
/// Records an event also in the journal, which survives a simulated crash of the process.
fn h_jr(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().ok_or("empty stack")?;
    alloc::harness(true);
    let x = val::of(rt, &v);
    sim::shm().journal(&format!("{}\n", x.render()));
    events().push(Ev { tid: sim::tid(), t: sim::now(), v: x });
    alloc::harness(false);
    Ok(())
}
/// Number of failures (not mere delays) that the simulator injected into operations of this thread so far.
fn h_hf(_rt: &mut Runtime) -> Result<Variable, String> { Ok(Variable::f64(hard_faults(sim::tid()) as f64)) }
pub fn hard_faults(tid: u32) -> u64 {
    let s = sim::shm(); let mut n = s.full_hits;
    for d in &s.dev[..s.ndev as usize] { let k = d.kind as usize; if d.tid == tid && matches!(k, sim::F_R_EIO | sim::F_W_EIO | sim::F_W_ENOSPC | sim::F_OPEN_FAIL | sim::F_SPAWN_FAIL | sim::F_NET | sim::F_CLOSE_EIO) { n += 1; } }
    n
}
/// What the simulated disk holds right now: event ["disk", file, some(text) or none()].
fn h_disk(rt: &mut Runtime) -> Result<(), String> {
    let f: Arc<String> = rt.pop()?;
    alloc::harness(true);
    let c = sim::shm().file(&f).map(|b| Val::Str(String::from_utf8(b.to_vec()).unwrap_or_else(|e| format!("NOT UTF-8 {:?}", e.as_bytes()))));
    events().push(Ev { tid: sim::tid(), t: sim::now(), v: Val::Arr(vec![Val::str("disk"), Val::Str(f.to_string()), Val::Opt(c.map(Box::new))]) });
    alloc::harness(false);
    Ok(())
}

/// From here on the simulator injects no more faults (it goes on varying the schedule).
fn h_nofaults(_rt: &mut Runtime) -> Result<(), String> { sim::shm().cfg.pf = [0; sim::NKIND]; Ok(()) }
/// The standard library plus the host functions of the harness.
pub fn base() -> Module {
    let mut m = Module::new();
    m.no_ns();
    add(&mut m);
    m
}
pub fn add(m: &mut Module) {
    use Type::*;
    m.add_str("ev", h_ev, Dfn::nl(vec![Any], Void));
    m.add_str("msg", h_msg, Dfn::nl(vec![Any], Void));
    m.add_str("fault", h_fault, Dfn::nl(vec![], Void));
    m.add_str("fault_num", h_fault_ret, Dfn::nl(vec![F64], F64));
    m.add_str("boom", h_boom, Dfn::nl(vec![Str], Void));
    m.add_str("yieldp", h_yield, Dfn::nl(vec![], Void));
    m.add_str("depths", h_depth, Dfn::nl(vec![], Any));
    m.add_str("simclock", h_clock, Dfn::nl(vec![], F64));
    m.add_str("val", h_val, Dfn::nl(vec![F64], Any));
    m.add_str("jr", h_jr, Dfn::nl(vec![Any], Void));
    m.add_str("hf", h_hf, Dfn::nl(vec![], F64));
    m.add_str("disk", h_disk, Dfn::nl(vec![Str], Void));
    crate::scen::chan2::add(m); crate::scen::files::add(m); crate::scen::io::add(m);
    m.add_str("nofaults", h_nofaults, Dfn::nl(vec![], Void));
    m.add_str("same_num", h_same, Dfn::nl(vec![F64], F64));
}
/// Loads a source text into a module with the host functions.
pub fn load(name: &str, src: &str) -> Result<Module, String> {
    let mut m = base();
    dyon::load_str(name, Arc::new(src.to_string()), &mut m).map_err(|e| e.to_string())?;
    Ok(m)
}
