//! Receivers whose module disappears, and a receiver shared between next and wait_next (C05).
use super::script::{evs, script};
use crate::engine::{count, Plan};
use crate::rng::Gen;
use crate::val::Val;
use crate::{host, sim};
use std::sync::{Arc, Mutex};

static mut LIB: Option<String> = None;
/// Host function: loads the library and hands out the only reference to it.
fn getmod(_rt: &mut dyon::Runtime) -> Result<dyon::Variable, String> {
    let src = unsafe { LIB.clone() }.unwrap();
    let m = host::load("lib.dyon", &src)?;
    Ok(dyon::Variable::RustObject(Arc::new(Mutex::new(Arc::new(m))) as dyon::RustObject))
}
pub fn add(m: &mut dyon::Module) { m.add_str("getmod", getmod, dyon::Dfn::nl(vec![], dyon::Type::Any)); }

pub fn disconnect(g: &mut Gen) -> Box<dyn Plan> {
    let nr = g.r.range(1, 2); // receivers
    let nc = g.r.range(0, 3); // calling threads that hold the module
    let mut src = String::from("fn reader(k: f64, rx: in[[]]) -> f64 {\n    n := 0\n    loop {\n        ev([\"w<\", k])\n        x := wait_next(rx)\n        ev([\"w>\", k, x])\n        if x == none() { break }\n        n += 1\n    }\n    y := wait_next(rx)\n    z := try next(rx)\n    l := 0\n    for m in rx { l += 1 }\n    s := sum m in rx { m[0] + 0 }\n    v := sift m in rx { clone(m) }\n    z2 := try next(rx)\n    ev([\"after\", k, y, z, [l + 0, s + 0, len(v)], z2])\n    return n + 0\n}\n");
    let mut want: Vec<(u64, f64)> = vec![];
    for c in 0..nc {
        let mut b = String::new(); let n = g.r.range(0, 4);
        for (i, mut r) in g.items(n).into_iter().enumerate() { let id = (c as u64 + 1) * 100 + i as u64; want.push((id, 0.0)); b += &format!("    call(m, \"f\", [{id}])\n    ev([\"r\", {id}])\n"); if r.chance(1, 3) { b += "    sleep(0.001)\n"; } if r.chance(1, 3) { b += "    yieldp()\n"; } }
        src += &format!("fn caller{c}(m: any) -> f64 {{\n{b}    return 1\n}}\n");
    }
    let mut b = String::from("    m := getmod()\n");
    for k in 0..nr { b += &format!("    rx{k} := call_ret(m, \"open\", [])\n"); }
    for c in 0..nc { b += &format!("    c{c} := go caller{c}(m)\n"); }
    let early = g.r.chance(1, 2);
    if early { for k in 0..nr { b += &format!("    t{k} := go reader({k}, rx{k})\n"); } }
    let np = g.r.range(0, 4);
    for (i, mut r) in g.items(np).into_iter().enumerate() { want.push((i as u64 + 1, 0.0)); b += &format!("    call(m, \"f\", [{}])\n    ev([\"r\", {}])\n", i + 1, i + 1); if r.chance(1, 4) { b += "    sleep(0.001)\n"; } }
    // The threads outlive the function that owns the module.
    b += &if early { "    return unwrap(some([t0".to_string() + if nr > 1 { ", t1" } else { "" } + "]))\n" } else { "    return [go reader(0, rx0)".to_string() + if nr > 1 { ", go reader(1, rx1)" } else { "" } + "]\n" };
    src += &format!("fn part() -> any {{\n{b}}}\n");
    if early { src = src.replace("    return unwrap(some([t0, t1]))\n", "    return 0\n").replace("    return unwrap(some([t0]))\n", "    return 0\n"); src += "fn main() {\n    ts := part()\n    ev([\"gone\"])\n}\n"; }
    else { src += &format!("fn main() {{\n    ts := part()\n    ev([\"gone\"])\n    for i {nr} {{\n        n := join(thread: pop(mut ts))\n        ev([\"j\", n])\n    }}\n}}\n"); }
    let mut s = script(src);
    let lib = "fn f(id: f64) { ev([\"b\", id]) }\nfn open() -> any { return in f }\n".to_string();
    s.notes = format!("// lib.dyon, handed out by getmod()\n{lib}");
    s.prep = Box::new(move |_| unsafe { LIB = Some(lib.clone()) });
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        for k in 0..nr {
            let got: Vec<(usize, Val)> = evs("w>").into_iter().filter(|e| e.3[0] == Val::Num(k as f64)).map(|e| (e.0, e.3[1].clone())).collect();
            let mut ids = vec![];
            for (i, (_, v)) in got.iter().enumerate() {
                match v {
                    Val::Opt(None) => if i + 1 != got.len() { return Err("wait_next went on after none()|".into()); },
                    Val::Opt(Some(m)) => match m.arr() { Some([Val::Num(x)]) => ids.push(*x as u64), _ => return Err(format!("message has a wrong content|{}", m.render())) },
                    v => return Err(format!("wait_next gave a wrong value|{}", v.render())),
                }
            }
            if !matches!(got.last(), Some((_, Val::Opt(None)))) { return Err(format!("wait_next never gave none()|receiver {k}")); }
            let mut a = ids.clone(); a.sort(); let mut w: Vec<u64> = want.iter().map(|x| x.0).collect(); w.sort();
            if a != w { return Err(format!("wait_next gave none() too early or lost messages|receiver {k} got {ids:?}, sent {w:?}")); }
            for c in 0..4u64 { let o: Vec<u64> = ids.iter().copied().filter(|x| x / 100 == c).collect(); if o.windows(2).any(|p| p[0] > p[1]) { return Err(format!("messages out of order|{ids:?}")); } }
            for e in evs("after") { let zero = Val::Arr(vec![Val::Num(0.0); 3]); if e.3[2] != Val::ok(Val::none()) || e.3[4] != Val::ok(Val::none()) { return Err(format!("next gave a wrong value|{} and {} when no call can send any more", e.3[2].render(), e.3[4].render())); } if e.3[1] != Val::none() || e.3[3] != zero { return Err("message after none()|".into()); } }
        }
        count(r.s, "messages_checked", want.len() as u64 * nr as u64); count(r.s, "oracle_checks", nr as u64);
        Ok(())
    });
    Box::new(s)
}
/// `next` in one thread while another waits in `wait_next` on the same receiver.
pub fn shared_wait(g: &mut Gen) -> Box<dyn Plan> {
    let d = g.r.range(1, 4); let n = g.r.range(1, 3);
    let src = format!("fn f(x: f64) -> f64 {{ return x + 1 }}\nfn waiter(rx: in[[]]) -> f64 {{\n    ev([\"w<\", 1])\n    x := wait_next(rx)\n    ev([\"w>\", x])\n    return 1\n}}\nfn later() -> f64 {{\n    sleep({d})\n    y := f(1)\n    ev([\"sent\"])\n    return 1\n}}\nfn main() {{\n    rx := in f\n    a := go waiter(rx)\n    b := go later()\n    sleep(0.2)\n    for i {n} {{\n        ev([\"n<\"])\n        x := next(rx)\n        ev([\"n>\", x])\n    }}\n    ja := join(thread: a)\n    jb := join(thread: b)\n    z := next(rx)\n    ev([\"last\", z, ja, jb])\n}}\n");
    let mut s = script(src);
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        let (a, b) = (evs("n<"), evs("n>"));
        for (x, y) in a.iter().zip(&b) {
            if y.2 - x.2 > 500_000_000 { return Err(format!("next waits behind wait_next of another thread on the same receiver|{} ns", y.2 - x.2)); }
        }
        let w = evs("w>");
        if w.len() != 1 || w[0].3[0] != Val::some(Val::Arr(vec![Val::Num(1.0)])) { return Err(format!("wait_next gave a wrong value|{w:?}")); }
        count(r.s, "oracle_checks", 2);
        Ok(())
    });
    let _ = sim::tid;
    Box::new(s)
}
