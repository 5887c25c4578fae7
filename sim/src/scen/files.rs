//! Saving and loading files on a faulty disk (C11, C12).
use super::script::{evs, script};
use crate::engine::{count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg};
use crate::val::Val;
use crate::{data, host};
use std::sync::Arc;

fn size(r: &mut Rng) -> usize { match r.weighted(&[4, 6, 4, 3, 1]) { 0 => r.below(3), 1 => r.below(300), 2 => *r.pick(&[4095, 4096, 8191, 8192, 8193, 16384]), 3 => r.range(8000, 30000), _ => r.range(60_000, 140_000) } }
fn big_data(r: &mut Rng) -> Val { if r.chance(1, 3) { let n = r.range(20, 900); Val::Arr((0..n).map(|_| if r.chance(1, 6) { data::gen(r, 1) } else { data::num(r) }).collect()) } else { data::gen(r, 3) } }
fn soft(r: &mut Rng, c: &mut Cfg) { if r.chance(2, 3) { for k in [sim::F_R_EINTR, sim::F_R_SHORT, sim::F_W_EINTR, sim::F_W_SHORT] { if r.chance(2, 3) { c.pf[k] = *r.pick(&[4000, 20000, 40000]); } } c.max_faults = 60; } }

pub fn saves(g: &mut Gen) -> Box<dyn Plan> {
    let nt = g.r.range(1, 4);
    let mut vals: Vec<Val> = vec![]; let mut src = String::new(); let mut b = String::new(); let mut total = 0u64;
    let mut files: Vec<String> = vec![];
    for t in 0..nt {
        let nf = g.r.range(1, 3); let no = g.r.range(1, 6);
        for f in 0..nf { files.push(format!("/sim/t{t}f{f}")); }
        let mut o = format!("fn saver{t}() -> f64 {{\n");
        for mut r in g.items(no) {
            let f = if r.chance(1, 25) { "/sim/dir".to_string() } else { format!("/sim/t{t}f{}", r.below(nf)) };
            let k = vals.len();
            let (v, mode) = if r.chance(1, 2) { let n = size(&mut r); (Val::Str(data::big(&mut r, n)), "string") } else { (big_data(&mut r), "data") };
            total += v.render().len() as u64;
            vals.push(v);
            o += &format!("    v{k} := val({k})\n    h{k} := hf()\n    jr([\"s<\", {k}, \"{f}\"])\n    r{k} := try save({mode}: v{k}, file: \"{f}\")\n    jr([\"s>\", {k}, \"{f}\", \"{mode}\", r{k}, hf() - h{k}])\n    disk(\"{f}\")\n");
            if r.chance(1, 5) { o += "    sleep(0.001)\n"; }
        }
        src += &(o + "    return 1\n}\n");
        b += &format!("    t{t} := go saver{t}()\n");
    }
    for t in 0..nt { b += &format!("    j{t} := join(thread: t{t})\n    ev([\"j\", j{t}])\n"); }
    for f in &files { b += &format!("    disk(\"{f}\")\n"); }
    let mut old: Vec<(String, String)> = vec![]; for f in &files { if g.r.chance(1, 3) { old.push((f.clone(), data::big(&mut g.r, 9000))); } }
    src += &format!("fn main() {{\n{b}}}\n");
    let mut s = script(src);
    s.phases = 2; s.steps = 60_000_000;
    s.notes = vals.iter().enumerate().map(|(k, v)| format!("// val({k}) = {}\n", crate::engine::clip(&v.render(), 300))).collect();
    s.setf = Box::new(move |r: &mut Rng, c: &mut Cfg, p: &Probe| {
        soft(r, c);
        match r.below(5) {
            0 => { c.pf[*r.pick(&[sim::F_W_EIO, sim::F_W_ENOSPC, sim::F_OPEN_FAIL, sim::F_CLOSE_EIO])] = *r.pick(&[2000, 8000, 20000]); }
            1 => c.disk_cap = r.below(total as usize + 1) as u64,
            2 | 3 => c.crash_io = 1 + r.below(p.io_ops.max(8) as usize) as u64,
            _ => {}
        }
    });
    let v2 = vals.clone();
    s.prep = Box::new(move |m| { *host::vals() = v2.clone(); for (f, t) in &old { m.put_file(f, t.as_bytes()); } m.put_dir("/sim/dir"); });
    s.judge = Box::new(move |r| {
        // The save that was last started and the one last acknowledged, per file.
        let whole = |k: usize, mode: &str, text: &str| -> bool { if mode == "string" { vals[k].as_str() == Some(text) } else { data::read(text).as_ref() == Some(&vals[k]) } };
        if r.phase == 1 {
            let mut last: std::collections::HashMap<String, (usize, String)> = Default::default();
            for l in r.journal.lines() {
                let p: Vec<&str> = l.split('"').collect(); let k: usize = p[2].trim_matches(',').parse().unwrap(); let f = p[3].to_string();
                if p[1] == "s<" { last.remove(&f); } // a save in progress may have destroyed the file
                else if l.contains(",ok(ok(") { last.insert(f, (k, p[5].to_string())); }
            }
            for (f, (k, m)) in &last {
                let t = r.s.file(f).map(|b| String::from_utf8_lossy(b).into_owned());
                if !t.as_deref().map_or(false, |t| whole(*k, m, t)) { return Err(format!("saved file is gone after a crash|{f} should hold val({k}) but holds {:?}", t.map(|t| crate::engine::clip(&t, 200)))); }
                count(r.s, "recoveries", 1);
            }
            return Ok(());
        }
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        let mut cur: std::collections::HashMap<String, (usize, String)> = Default::default();
        let all = host::events().clone();
        for (i, e) in all.iter().enumerate() {
            let a = match e.v.arr() { Some(a) => a, None => continue };
            match a[0].as_str() {
                Some("j") => if a[1] != Val::ok(Val::Num(1.0)) { return Err(format!("saving thread failed|{}", a[1].render())); },
                Some("s>") => {
                    let (k, f, m, res, hard) = (a[1].num().unwrap() as usize, a[2].as_str().unwrap().to_string(), a[3].as_str().unwrap(), &a[4], a[5].num().unwrap());
                    let ok = *res == Val::ok(Val::ok(Val::Str(f.clone())));
                    let bad = matches!(res, Val::Err(_)) || matches!(res, Val::Ok(x) if matches!(**x, Val::Err(_)));
                    if !ok && !bad { return Err(format!("save gave a strange result|{}", res.render())); }
                    if bad && hard == 0.0 && f != "/sim/dir" { return Err(format!("save failed without cause|val({k}) to {f}: {}", res.render())); }
                    if ok && f == "/sim/dir" { return Err("save to a directory succeeded|".into()); }
                    if ok { cur.insert(f.clone(), (k, m.to_string()));
                        let d = all[i + 1..].iter().find(|x| x.tid == e.tid).and_then(|x| x.v.arr()).map(|x| x[2].clone());
                        match d { Some(Val::Opt(Some(t))) if whole(k, m, t.as_str().unwrap()) => {} d => return Err(format!("save reported success but the file is not complete|val({k}) to {f}: {}", crate::engine::clip(&format!("{d:?}"), 400))) }
                        count(r.s, "saves_checked", 1);
                    } else { cur.remove(&f); count(r.s, "errors_caught", 1); }
                }
                _ => {}
            }
        }
        let main = all.iter().filter(|e| e.v.arr().map_or(false, |a| a[0].as_str() == Some("j"))).map(|e| e.tid).next();
        for e in all.iter().filter(|e| Some(e.tid) == main) { let a = e.v.arr().unwrap(); if a[0].as_str() == Some("disk") {
            let f = a[1].as_str().unwrap();
            if let Some((k, m)) = cur.get(f) { match &a[2] { Val::Opt(Some(t)) if whole(*k, m, t.as_str().unwrap()) => {} x => return Err(format!("saved file changed later|{f} should hold val({k}): {}", crate::engine::clip(&x.render(), 300))) } } } }
        count(r.s, "oracle_checks", 1);
        Ok(())
    });
    Box::new(s)
}

#[derive(Clone, Debug)]
enum Exp { Ok(Val), Err, Any }
/// Host function: loads a module from a file with the Rust API and calls f(1).
fn hrun(rt: &mut dyon::Runtime) -> Result<dyon::Variable, String> {
    let f: Arc<String> = rt.pop()?;
    let mut m = host::base();
    dyon::load(&f, &mut m).map_err(|e| e.to_string())?;
    // A module that was reported as loaded has its functions.
    Ok(dyon::Runtime::new().call_str_ret("f", &[dyon::Variable::f64(1.0)], &Arc::new(m)).unwrap_or_else(|_| dyon::Variable::Str(Arc::new("hollow".into()))))
}
pub fn add(m: &mut dyon::Module) { m.add_str("hrun", hrun, dyon::Dfn::nl(vec![dyon::Type::Str], dyon::Type::Any)); }
fn module(c: usize) -> String { format!("fn f(x: f64) -> f64 {{ return x + {c} }}\nfn g(x: f64) -> f64 {{\n    return f(x) * 2\n}}\n") }

pub fn loads(g: &mut Gen) -> Box<dyn Plan> {
    let nt = g.r.range(1, 3);
    let mut vals: Vec<Val> = vec![]; let mut put: Vec<(String, Vec<u8>)> = vec![]; let mut exp: Vec<Exp> = vec![];
    // Files that are only read, by all threads: (name, what loading it as text / data / module yields).
    let nf = g.r.range(2, 6);
    let mut shared: Vec<(String, Exp, Exp, Exp, Exp)> = vec![("/sim/missing".into(), Exp::Err, Exp::Err, Exp::Err, Exp::Err), ("/sim/dir".into(), Exp::Err, Exp::Err, Exp::Err, Exp::Err)];
    for i in 0..nf {
        let mut r = g.r.fork(); let name = format!("/sim/s{i}");
        let e = match r.below(8) {
            0 | 1 => { let n = size(&mut r); let t = data::big(&mut r, n); put.push((name.clone(), t.as_bytes().to_vec())); (Exp::Ok(Val::Str(t)), Exp::Any, Exp::Any, Exp::Any) }
            2 | 3 => { let v = big_data(&mut r); let mut t = String::new(); if r.chance(1, 3) { t += " // a comment\n"; } data::write(&v, &mut r, &mut t); put.push((name.clone(), t.as_bytes().to_vec())); (Exp::Ok(Val::Str(t)), Exp::Ok(v), Exp::Any, Exp::Any) }
            4 => { // cut off
                let v = Val::Arr((0..r.range(2, 40)).map(|_| data::gen(&mut r, 1)).collect()); let mut t = String::new(); data::write(&v, &mut r, &mut t); let mut n = r.range(1, t.len() - 1); while !t.is_char_boundary(n) { n -= 1; } t.truncate(n); put.push((name.clone(), t.as_bytes().to_vec())); (Exp::Ok(Val::Str(t)), Exp::Err, Exp::Err, Exp::Any) }
            5 => { let n = size(&mut r); let mut t = data::big(&mut r, n).into_bytes(); let at = r.below(t.len() + 1); t.insert(at, *r.pick(&[0xff, 0xc0, 0x80])); if std::str::from_utf8(&t).is_ok() { t.push(0xff); } put.push((name.clone(), t)); (Exp::Err, Exp::Err, Exp::Err, Exp::Err) }
            6 => { let n = r.range(0, 300); let t = (0..n).map(|_| format!("{} ", r.below(1000))).collect::<String>(); let mut o = vec![]; let mut at = 0; for w in t.split(' ').filter(|w| !w.is_empty()) { o.push(Val::Arr(vec![Val::Num(at as f64), Val::Num(w.len() as f64), Val::str("f64"), Val::str("num"), Val::Num(w.parse().unwrap())])); at += w.len() + 1; } put.push((name.clone(), t.as_bytes().to_vec())); (Exp::Ok(Val::Str(t)), Exp::Any, Exp::Any, Exp::Ok(Val::Arr(o))) }
            _ => { let c = r.below(100); let mut t = module(c); if r.chance(1, 3) { for k in 0..r.range(1, 60) { t += &format!("fn extra{k}(x: f64) -> f64 {{ return x + {k} }}\n"); } } put.push((name.clone(), t.as_bytes().to_vec())); (Exp::Ok(Val::Str(t)), Exp::Err, Exp::Ok(Val::Num(1.0 + c as f64)), Exp::Any) }
        };
        shared.push((name, e.0, e.1, e.2, e.3));
    }
    put.push(("/sim/meta".into(), b"10 doc = .r?([.$:\"num\" .w?])\n".to_vec()));
    let (mut src, mut b) = (String::new(), String::new());
    for t in 0..nt {
        let no = g.r.range(2, 6);
        let mut o = format!("fn loader{t}() -> f64 {{\n");
        let mut op = |o: &mut String, exp: &mut Vec<Exp>, call: String, e: Exp| { let k = exp.len(); exp.push(e); *o += &format!("    h{k} := hf()\n    r{k} := try {call}\n    ev([\"l\", {k}, r{k}, hf() - h{k}])\n"); };
        for mut r in g.items(no) {
            let s = r.pick(&shared).clone(); let f = &s.0;
            let run = |c: &str| format!("{c}");
            match r.below(8) {
                0 => op(&mut o, &mut exp, run(&format!("load_string(file: \"{f}\")")), s.1.clone()),
                1 => op(&mut o, &mut exp, run(&format!("load_data(file: \"{f}\")")), s.2.clone()),
                2 => op(&mut o, &mut exp, format!("modf(\"{f}\")"), s.3.clone()),
                3 => op(&mut o, &mut exp, format!("hrun(\"{f}\")"), s.3.clone()),
                4 => op(&mut o, &mut exp, format!("load(meta: \"/sim/meta\", file: \"{f}\")"), s.4.clone()),
                5 => op(&mut o, &mut exp, format!("srcf(\"{f}\")"), s.3.clone()),
                _ => { // several versions of a file of this thread, each read back
                    let f = format!("/sim/own{t}_{}", r.below(2));
                    for _ in 0..r.range(1, 3) {
                        let k = vals.len();
                        match r.below(3) {
                            0 => { let v = big_data(&mut r); vals.push(v.clone()); op(&mut o, &mut exp, format!("rt_data({k}, \"{f}\")"), Exp::Ok(v)); }
                            1 => { let n = size(&mut r); let v = Val::Str(data::big(&mut r, n)); vals.push(v.clone()); op(&mut o, &mut exp, format!("rt_string({k}, \"{f}\")"), Exp::Ok(v)); }
                            _ => { let c = r.below(100); vals.push(Val::Str(module(c))); op(&mut o, &mut exp, format!("rt_module({k}, \"{f}\")"), Exp::Ok(Val::Num(c as f64 + 1.0))); }
                        }
                    }
                }
            }
        }
        src += &(o + "    return 1\n}\n");
        b += &format!("    t{t} := go loader{t}()\n");
    }
    for t in 0..nt { b += &format!("    j{t} := join(thread: t{t})\n    ev([\"j\", j{t}])\n"); }
    let pre = "fn modf(f: str) -> any {\n    m := unwrap(load(f))\n    r := try call_ret(m, \"f\", [1])\n    if is_err(r) {\n        return \"hollow\"\n    }\n    return unwrap(r)\n}\nfn srcf(f: str) -> any {\n    m := unwrap(load(source: f, imports: []))\n    r := try call_ret(m, \"g\", [1])\n    if is_err(r) {\n        return \"hollow\"\n    }\n    return unwrap(r) / 2\n}\nfn rt_data(k: f64, f: str) -> any {\n    v := val(k)\n    a := unwrap(save(data: v, file: f))\n    return unwrap(load_data(file: f))\n}\nfn rt_string(k: f64, f: str) -> any {\n    v := val(k)\n    a := unwrap(save(string: v, file: f))\n    return unwrap(load_string(file: f))\n}\nfn rt_module(k: f64, f: str) -> any {\n    v := val(k)\n    a := unwrap(save(string: v, file: f))\n    return modf(f)\n}\n";
    src = format!("{pre}{src}fn main() {{\n{b}}}\n");
    let mut s = script(src);
    s.steps = 120_000_000;
    s.notes = format!("{}{}", vals.iter().enumerate().map(|(k, v)| format!("// val({k}) = {}\n", crate::engine::clip(&v.render(), 300))).collect::<String>(), put.iter().map(|(n, t)| format!("// {n}: {}\n", crate::engine::clip(&String::from_utf8_lossy(t), 200).replace('\n', "\\n"))).collect::<String>());
    s.setf = Box::new(|r: &mut Rng, c: &mut Cfg, _p: &Probe| {
        soft(r, c);
        if r.chance(1, 2) { c.pf[*r.pick(&[sim::F_R_EIO, sim::F_R_EIO, sim::F_OPEN_FAIL, sim::F_W_EIO, sim::F_W_ENOSPC])] = *r.pick(&[2000, 8000, 20000]); }
    });
    let v2 = vals.clone();
    s.prep = Box::new(move |m| { *host::vals() = v2.clone(); for (f, t) in &put { m.put_file(f, t); } m.put_dir("/sim/dir"); });
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        for e in evs("j") { if e.3[0] != Val::ok(Val::Num(1.0)) { return Err(format!("loading thread failed|{}", e.3[0].render())); } }
        let mut seen = 0;
        for e in evs("l") {
            let (k, res, hard) = (e.3[0].num().unwrap() as usize, &e.3[1], e.3[2].num().unwrap());
            seen += 1;
            // `try` wraps results of functions that return `res`; plain values of the others are wrapped once.
            let flat = match res { Val::Ok(x) => match &**x { Val::Ok(y) => Some((**y).clone()), Val::Err(_) => None, y => Some(y.clone()) }, _ => None };
            match (&exp[k], &flat) {
                (Exp::Any, _) => {}
                (Exp::Ok(v), Some(x)) if v == x => {}
                (Exp::Ok(_), None) if hard > 0.0 => {}
                (Exp::Err, None) => {}
                (Exp::Ok(_), None) => return Err(format!("loading failed without cause|operation {k}: {}", crate::engine::clip(&res.render(), 400))),
                (w, _) => return Err(format!("loading gave a wrong content|operation {k} should give {} but gave {}", crate::engine::clip(&format!("{w:?}"), 300), crate::engine::clip(&res.render(), 300))),
            }
            count(r.s, "loads_checked", 1);
        }
        if seen != exp.len() { return Err("operations are missing|".into()); }
        Ok(())
    });
    Box::new(s)
}
