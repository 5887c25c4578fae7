//! Console input (C13), time (C14), downloads (C16), thread creation failures (C17), console output (C18).
use super::script::{evs, script};
use crate::engine::{clip, count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg};
use crate::val::Val;
use crate::{data, host};

// ---- C13 ----------------------------------------------------------------------------------------------------
fn in_line(r: &mut Rng, i: usize) -> Vec<u8> {
    let s = match r.below(16) {
        0 => String::new(), 1 => "   ".into(), 2 => format!("{}", r.below(1000)), 3 => format!("  {}\t", r.below(100) as f64 + 0.5), 4 => format!("-{}", r.below(50)), 5 => "1e3".into(), 6 => "abc".into(), 7 => "12x".into(), 8 => format!("é{i}λ"), 9 => "漢字 😀".into(), 10 => "\t.5".into(), 11 => "inf".into(),
        12 => { let n = r.range(8000, 20000); data::big(r, n).replace('\n', " ") } 13 => format!("{}\r", r.below(100)), 14 => "1 2".into(), _ => format!("line {i}") };
    let mut b = s.into_bytes(); if r.chance(1, 20) { let at = r.below(b.len() + 1); b.insert(at, 0xff); } b
}
fn line_end(b: &[u8], p: usize) -> usize { b[p..].iter().position(|c| *c == b'\n').map_or(b.len(), |k| p + k + 1) }
/// One line from position p: the text, or `None` if it is not valid; and the position after it.
fn line(b: &[u8], p: usize) -> (Option<String>, usize) { let e = line_end(b, p); (String::from_utf8(b[p..e].to_vec()).ok(), e) }
/// `read_number` from position p: number or error, position after it, lines that were not numbers.
fn number(b: &[u8], mut p: usize) -> (Option<f64>, usize, usize) {
    let mut miss = 0;
    loop { let (l, e) = line(b, p); if e == p { return (None, e, miss); } p = e; match l { None => return (None, e, miss), Some(l) => match l.trim().parse::<f64>() { Ok(x) => return (Some(x), e, miss), Err(_) => miss += 1 } } }
}
pub fn stdin(g: &mut Gen) -> Box<dyn Plan> {
    let threads = if g.r.chance(1, 3) { g.r.range(2, 3) } else { 1 };
    let mut input: Vec<u8> = vec![]; let n = g.r.range(0, 14);
    for (i, mut r) in g.items(n).into_iter().enumerate() { let mut l = if threads > 1 { let n = *r.pick(&[0usize, 3, 30, 5000]); format!("{i}:{}", data::big(&mut r, n).replace('\n', "")).into_bytes() } else { in_line(&mut r, i) }; input.append(&mut l); input.push(b'\n'); }
    if g.r.chance(1, 3) && input.last() == Some(&b'\n') { input.pop(); }
    let mut src = String::new(); let mut ops: Vec<(bool, String)> = vec![];
    if threads == 1 {
        let mut b = String::new(); let no = g.r.range(1, 12);
        for (k, mut r) in g.items(no).into_iter().enumerate() {
            let num = r.chance(1, 2); let m = format!("m{k}:{}", *r.pick(&["again", "", "é?"]));
            b += &format!("    h{k} := hf()\n    r{k} := try {}\n    ev([\"in\", {k}, r{k}, hf() - h{k}])\n", if num { format!("read_number(\"{m}\")") } else { "read_line()".into() });
            ops.push((num, m));
        }
        src += &format!("fn main() {{\n{b}}}\n");
    } else {
        let c = g.r.range(1, 7);
        src += &format!("fn reader(k: f64) -> f64 {{\n    for i {c} {{\n        l := try read_line()\n        ev([\"ln\", k, l])\n    }}\n    return 1\n}}\nfn main() {{\n    ts := sift k {threads} {{ go reader(k) }}\n    for i {threads} {{\n        j := join(thread: pop(mut ts))\n        ev([\"j\", j])\n    }}\n    for i {n} {{\n        l := try read_line()\n        ev([\"ln\", 99, l])\n    }}\n}}\n");
    }
    let mut s = script(src);
    s.notes = format!("// standard input: {:?}", clip(&String::from_utf8_lossy(&input), 2000));
    let hard = threads == 1;
    s.setf = Box::new(move |r: &mut Rng, c: &mut Cfg, _p: &Probe| {
        for k in [sim::F_R_EINTR, sim::F_R_SHORT, sim::F_W_EINTR, sim::F_W_SHORT] { if r.chance(2, 3) { c.pf[k] = *r.pick(&[6000, 25000, 50000]); } }
        c.max_faults = 80;
        if hard && r.chance(1, 3) { c.pf[sim::F_R_EIO] = *r.pick(&[4000, 15000]); }
    });
    let inp = input.clone();
    s.prep = Box::new(move |m| m.set_stdin(&inp));
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        flush();
        if threads > 1 {
            let mut seen: Vec<(usize, u32)> = vec![]; let mut eof = 0;
            let lines: Vec<String> = { let mut v = vec![]; let mut p = 0; while p < input.len() { let (l, e) = line(&input, p); v.push(l.unwrap()); p = e; } v };
            let mut last: std::collections::HashMap<String, i64> = Default::default();
            for e in evs("ln") {
                let t = match &e.3[1] { Val::Ok(x) => x.as_str().unwrap_or("?").to_string(), x => return Err(format!("read_line failed without cause|{}", x.render())) };
                if t.is_empty() { eof += 1; continue; }
                match lines.iter().position(|l| *l == t) { None => return Err(format!("line of input was corrupted|{:?}", clip(&t, 300))), Some(i) => { if seen.iter().any(|s| s.0 == i) { return Err(format!("line of input was read twice|line {i}")); } seen.push((i, e.1)); let k = e.3[0].render(); let l = last.entry(k).or_insert(-1); if *l > i as i64 { return Err(format!("lines of input out of order|line {i} after {l}")); } *l = i as i64; } }
            }
            let m = seen.len(); seen.sort(); if seen.iter().enumerate().any(|(i, s)| s.0 != i) { return Err(format!("line of input was lost|read {seen:?} of {}", lines.len())); }
            if m < lines.len() && eof > 0 { return Err(format!("line of input was lost|end reported after {m} of {} lines", lines.len())); }
            count(r.s, "lines_read", m as u64);
            return Ok(());
        }
        let mut cand: Vec<usize> = vec![0]; let mut out = String::new(); let mut exact = true;
        let es = evs("in");
        if es.len() != ops.len() { return Err("operations are missing|".into()); }
        for e in es {
            let (k, res, hard) = (e.3[0].num().unwrap() as usize, &e.3[1], e.3[2].num().unwrap() > 0.0);
            let (num, m) = &ops[k];
            let mut next: Vec<usize> = vec![]; let mut misses: Vec<usize> = vec![]; let mut want = String::new();
            let got = match res { Val::Ok(x) => Some((**x).clone()), _ => None };
            if got.is_none() && hard { // an input error: part of what was being read may be gone
                let mut can = vec![false; input.len() + 1];
                for p in &cand {
                    let e = if *num { exact = false; number(&input, *p).1 + 1 } else { let e = line_end(&input, *p); if input[..e].last() == Some(&b'\n') { e.max(*p + 1) } else { e + 1 } };
                    for q in *p..e.max(*p + 1).min(input.len() + 1) { can[q] = true; }
                }
                next.extend((0..can.len()).filter(|q| can[*q]));
                if next.len() > 3000 { return Ok(()); } // too little is known about the rest of the input
                cand = next; count(r.s, "errors_caught", 1); continue;
            }
            for p in &cand {
                let (w, e, c) = if *num { let (x, e, c) = number(&input, *p); (x.map(Val::Num), e, c as usize) } else { let (l, e) = line(&input, *p); (l.map(Val::Str), e, 0) };
                want = format!("{w:?}");
                if w == got { next.push(e); misses.push(c); }
            }
            if next.is_empty() { return Err(format!("{}|operation {k} gave {} but should give {}", if *num { "read_number gave a wrong result" } else { "read_line gave a wrong result" }, clip(&res.render(), 300), clip(&want, 300))); }
            misses.dedup(); if misses.len() > 1 { exact = false; } // different starting points after an input error
            let miss = misses[0];
            for _ in 0..miss { out += m; out.push('\n'); }
            next.sort(); next.dedup(); if next.len() > 1 { exact = false; } cand = next;
            count(r.s, "lines_read", 1 + miss as u64);
        }
        let got = String::from_utf8_lossy(r.s.out_bytes()).into_owned();
        if exact && got != out { return Err(format!("message of read_number printed wrongly|{got:?} instead of {out:?}")); }
        Ok(())
    });
    Box::new(s)
}
pub fn flush() { use std::io::Write; let _ = std::io::stdout().flush(); }

// ---- C14 ----------------------------------------------------------------------------------------------------
fn lastclock(_rt: &mut dyon::Runtime) -> Result<dyon::Variable, String> { let t = sim::last_clock(); Ok(dyon::Variable::f64(t as f64 / 1e9)) }
pub fn add(m: &mut dyon::Module) { m.add_str("lastclock", lastclock, dyon::Dfn::nl(vec![], dyon::Type::F64)); }
pub fn time(g: &mut Gen) -> Box<dyn Plan> {
    let nt = g.r.range(1, 4); let (mut src, mut b) = (String::new(), String::new());
    let mut vals: Vec<Val> = vec![]; let epoch = *g.r.pick(&[1_700_000_000i64, 1_700_000_000, 0, -1, -86_400 * 365 * 20, 4_102_444_800, 1]);
    for t in 0..nt {
        let mut o = format!("fn w{t}() -> f64 {{\n    ev([\"a\", {t}, simclock()])\n"); let no = g.r.range(1, 6);
        for mut r in g.items(no) {
            let k = vals.len();
            match r.below(5) {
                0 | 1 => { o += &format!("    n{k} := now()\n    ev([\"now\", {t}, n{k}, lastclock()])\n"); vals.push(Val::Num(0.0)); }
                2 => { o += "    s := 0\n    for i 40 { s += i }\n".replace("s ", &format!("s{k} ")).as_str(); vals.push(Val::Num(0.0)); }
                _ => {
                    let x = match r.below(16) { 0 => 0.0, 1 => -1.0, 2 => -0.25, 3 => f64::NAN, 4 => 1e-9, 5 => 0.0005, 6 => 0.3, 7 => 1.0, 8 => 1.999999999, 9 => 3600.0, 10 => 86400.5, 11 => 1e6, 12 => f64::NEG_INFINITY, 13 => 2.000000001, _ => r.below(3000) as f64 / 1000.0 };
                    vals.push(Val::Num(x));
                    o += &format!("    x{k} := val({k})\n    a{k} := simclock()\n    sleep(x{k})\n    b{k} := simclock()\n    ev([\"slept\", {t}, {k}, a{k}, b{k}])\n");
                }
            }
        }
        src += &(o + &format!("    ev([\"z\", {t}, simclock()])\n    return 1\n}}\n"));
        b += &format!("    t{t} := go w{t}()\n");
    }
    for t in 0..nt { b += &format!("    j{t} := join(thread: t{t})\n    ev([\"j\", j{t}])\n"); }
    src += &format!("fn main() {{\n{b}}}\n");
    let mut s = script(src);
    s.notes = vals.iter().enumerate().map(|(k, v)| format!("// val({k}) = {}\n", v.render())).collect::<String>() + &format!("// clock starts at {epoch} s\n");
    s.setf = Box::new(move |r: &mut Rng, c: &mut Cfg, _p: &Probe| {
        c.epoch_ns = epoch * 1_000_000_000 + r.below(1_000_000_000) as i64 * if r.chance(1, 2) { 1 } else { 0 };
        if r.chance(1, 2) { c.pf[sim::F_SLEEP_EINTR] = *r.pick(&[10000, 40000]); }
        if r.chance(1, 2) { c.pf[sim::F_CLOCKJUMP] = *r.pick(&[10000, 40000]); }
        c.max_faults = 60;
    });
    let v2 = vals.clone();
    s.prep = Box::new(move |_| *host::vals() = v2.clone());
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        for e in evs("j") { if e.3[0] != Val::ok(Val::Num(1.0)) { return Err(format!("thread failed|{}", e.3[0].render())); } }
        let mut want = vec![0.0; nt];
        for e in evs("slept") {
            let (t, k, a, b) = (e.3[0].num().unwrap() as usize, e.3[1].num().unwrap() as usize, e.3[2].num().unwrap(), e.3[3].num().unwrap());
            let x = vals[k].num().unwrap(); let x = if x > 0.0 { x } else { 0.0 };
            want[t] += x;
            if b - a < x - 2e-8 { return Err(format!("sleep ended too early|sleep({x}) took {} s", b - a)); }
            if b - a > x + 2.0 { return Err(format!("sleep took too long|sleep({x}) took {} s", b - a)); }
            count(r.s, "sleeps_checked", 1);
        }
        for e in evs("z") { let t = e.3[0].num().unwrap() as usize; let z = e.3[1].num().unwrap(); if let Some(a) = evs("a").iter().find(|x| x.3[0] == e.3[0]) { let d = z - a.3[1].num().unwrap(); if d > want[t] + 3.0 { return Err(format!("thread was stopped by the sleep of another|thread {t} took {d} s, slept {} s itself", want[t])); } } }
        for e in evs("now") {
            let (n, c) = (e.3[1].num().unwrap(), e.3[2].num().unwrap());
            if !((n - c).abs() < 1e-5) { return Err(format!("now differs from the clock|now() gave {n}, the clock said {c}")); }
            count(r.s, "oracle_checks", 1);
        }
        Ok(())
    });
    Box::new(s)
}

// ---- C18 ----------------------------------------------------------------------------------------------------
pub fn stdout(g: &mut Gen) -> Box<dyn Plan> {
    let nt = g.r.range(1, 4); let (mut src, mut b) = (String::new(), String::new());
    let mut tokens: Vec<Vec<String>> = vec![]; let mut own = vec![String::new(); nt + 1]; let mut nl = 0usize; let mut other = 0usize; let mut vals: Vec<Val> = vec![];
    for t in 0..=nt {
        let mut o = String::new(); let mut tk: Vec<String> = vec![]; let no = g.r.range(1, 9);
        for mut r in g.items(no) {
            let tok = |r: &mut Rng, tk: &mut Vec<String>| { let n = *r.pick(&[0usize, 0, 1, 3, 20, 200, 1500, 9000]); let s = format!("<{t}.{}.{}>", tk.len(), data::big(r, n).replace('\n', "")); tk.push(s.clone()); s };
            let ln = r.chance(1, 2); let f = if ln { nl += 1; "println" } else { "print" };
            let k = vals.len();
            match r.below(6) {
                0 => { let x = 1_000_000 * (t + 1) + tk.len() * 1000 + 1; let s = format!("{x}"); tk.push(s); vals.push(Val::Num(x as f64)); }
                1 => { // composite values are written in pieces: their text is recognised by letters that only this thread uses
                    let n = r.range(1, 4); let v: Vec<Val> = (0..n).map(|_| { let s: String = (0..*r.pick(&[1usize, 5, 40, 900])).map(|_| char::from_u32(0x400 + 48 * t as u32 + r.below(48) as u32).unwrap()).collect(); own[t] += &s; Val::Str(s) }).collect(); other += 2 + 2 * n + 2 * (n - 1); vals.push(Val::Arr(v)); }
                _ => { let s = tok(&mut r, &mut tk); vals.push(Val::Str(s)); }
            }
            o += &format!("    {f}(val({k}))\n");
            if r.chance(1, 8) { o += "    sleep(0.0001)\n"; }
        }
        tokens.push(tk);
        if t < nt { src += &format!("fn p{t}() -> f64 {{\n{o}    return 1\n}}\n"); b += &format!("    t{t} := go p{t}()\n"); } else { b += &o; }
    }
    for t in 0..nt { b += &format!("    j{t} := join(thread: t{t})\n    ev([\"j\", j{t}])\n"); }
    src += &format!("fn main() {{\n{b}}}\n");
    let mut s = script(src);
    s.notes = vals.iter().enumerate().map(|(k, v)| format!("// val({k}) = {}\n", clip(&v.render(), 200))).collect::<String>();
    s.setf = Box::new(move |r: &mut Rng, c: &mut Cfg, _p: &Probe| { for k in [sim::F_W_EINTR, sim::F_W_SHORT] { if r.chance(2, 3) { c.pf[k] = *r.pick(&[6000, 25000, 50000]); } } c.max_faults = 100; });
    s.prep = Box::new(move |_| *host::vals() = vals.clone());
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        for e in evs("j") { if e.3[0] != Val::ok(Val::Num(1.0)) { return Err(format!("thread failed|{}", e.3[0].render())); } }
        flush();
        let out = match std::str::from_utf8(r.s.out_bytes()) { Ok(x) => x.to_string(), Err(e) => return Err(format!("output was corrupted|not valid text at byte {}", e.valid_up_to())) };
        let mut used = 0usize;
        for (t, tk) in tokens.iter().enumerate() {
            let mut at = 0;
            let mine: String = out.chars().filter(|c| (*c as u32) >= 0x400 + 48 * t as u32 && (*c as u32) < 0x400 + 48 * (t as u32 + 1)).collect();
            if mine != own[t] { return Err(format!("text of arrays was lost or out of order|thread {t}: {:?} instead of {:?}", clip(&mine, 300), clip(&own[t], 300))); }
            used += mine.len();
            for (i, s) in tk.iter().enumerate() {
                // Numbers carry no end mark, so they are looked up with their unique prefix only.
                match out[at..].find(s.as_str()) { Some(p) => { at += p + s.len(); used += s.len(); } None => return Err(format!("{}|print {i} of thread {t}: {:?}; output {:?}", if out.contains(s.as_str()) { "output out of order" } else { "output was lost or torn" }, clip(s, 200), clip(&out, 600))) }
                if out.matches(s.as_str()).count() > 1 { return Err(format!("output printed twice|{:?}", clip(s, 200))); }
                count(r.s, "values_compared", 1);
            }
        }
        if out.matches('\n').count() != nl { return Err(format!("line ends lost or added|{} instead of {nl}", out.matches('\n').count())); }
        if out.len() != used + nl + other { return Err(format!("output has a wrong length|{} instead of {}: {:?}", out.len(), used + nl + other, clip(&out, 600))); }
        Ok(())
    });
    Box::new(s)
}

// ---- C17 ----------------------------------------------------------------------------------------------------
pub fn spawn(g: &mut Gen) -> Box<dyn Plan> {
    let mut src = String::from("fn f(x: f64, a: []) -> f64 {\n    ev([\"b\", x])\n    return x + len(a)\n}\nfn start(mut ts: [], x: f64, a: []) -> f64 {\n    push(mut ts, go f(x, a))\n    return 1\n}\nfn startn(mut ts: [], x: f64) -> f64 {\n    push(mut ts, go nested(x))\n    return 1\n}\nfn nested(x: f64) -> any {\n    a := [1, 2]\n    ts := []\n    r := try start(mut ts, x, a)\n    push(mut a, 3)\n    ev([\"g\", x, is_ok(r)])\n    if is_ok(r) {\n        return join(thread: pop(mut ts))\n    }\n    return err(\"no thread\")\n}\nfn loadrun(f: str) -> any {\n    m := unwrap(load(f))\n    return call_ret(m, \"f\", [1])\n}\n");
    let mut b = String::from("    rx := in f\n    keep := [7, 8]\n    acc := 0\n"); let mut ids: Vec<u64> = vec![]; let mut nested: Vec<u64> = vec![]; let mut loads: Vec<u64> = vec![]; let mut id = 0u64; let mut pend: Vec<u64> = vec![];
    let n = g.r.range(3, 9);
    for mut r in g.items(n) {
        id += 1;
        match r.below(6) {
            0 | 1 => { b += &format!("    h{id} := hf()\n    ts{id} := []\n    r{id} := try start(mut ts{id}, {id}, keep)\n    ev([\"g\", {id}, is_ok(r{id}), hf() - h{id}])\n    acc += {id}\n"); ids.push(id); pend.push(id); }
            2 => { b += &format!("    ts{id} := []\n    r{id} := try startn(mut ts{id}, {id})\n    ev([\"n\", {id}, is_ok(r{id})])\n    if is_ok(r{id}) {{\n        j := join(thread: pop(mut ts{id}))\n        ev([\"nj\", {id}, j])\n    }}\n"); nested.push(id); }
            3 => { let k = r.range(1, 3); let f = *r.pick(&["/sim/m", "/sim/m2"]); b += &format!("    for i {k} {{\n        h := hf()\n        m := try loadrun(\"{f}\")\n        ev([\"m\", {id}, m, hf() - h])\n    }}\n"); loads.push(id); }
            4 => { if let Some(p) = pend.pop() { b += &format!("    if is_ok(r{p}) {{\n        j{p} := join(thread: pop(mut ts{p}))\n        ev([\"j\", {p}, j{p}])\n    }}\n"); } }
            _ => { b += &format!("    push(mut keep, {id})\n    ev([\"k\", len(keep), acc])\n    p{id} := pop(mut keep)\n"); }
        }
    }
    for p in pend { b += &format!("    if is_ok(r{p}) {{\n        j{p} := join(thread: pop(mut ts{p}))\n        ev([\"j\", {p}, j{p}])\n    }}\n"); }
    // Faults stop here; everything works again.
    b += "    nofaults()\n    tl := []\n    last := try start(mut tl, 1000, keep)\n    ev([\"g\", 1000, is_ok(last), 0])\n    jl := join(thread: pop(mut tl))\n    ev([\"j\", 1000, jl])\n    m := try loadrun(\"/sim/m\")\n    ev([\"m\", 1000, m, 0])\n    loop {\n        x := next(rx)\n        if x == none() { break }\n        ev([\"msg\", unwrap(x)])\n    }\n    ev([\"end\", keep, acc, depths()])\n";
    src += &format!("fn main() {{\n    ev([\"d0\", depths()])\n{b}}}\n");
    ids.push(1000);
    let mut s = script(src);
    s.setf = Box::new(move |r: &mut Rng, c: &mut Cfg, _p: &Probe| { if r.chance(5, 6) { c.pf[sim::F_SPAWN_FAIL] = *r.pick(&[8000, 20000, 40000]); } c.max_faults = 30; });
    s.prep = Box::new(move |m| { m.put_file("/sim/m", b"fn f(x: f64) -> f64 { return x + 41 }\n"); m.put_file("/sim/m2", b"fn g(x: f64) -> f64 { return x * 2 }\nfn f(x: f64) -> f64 {\n    a := [x, 20]\n    return g(a[1]) + 2\n}\n"); });
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        let num = |v: &Val| v.num().unwrap_or(-1.0) as u64;
        let mut started: Vec<u64> = vec![];
        for e in evs("g") { let ok = e.3[1] == Val::Bool(true); if ok { started.push(num(&e.3[0])); } else if e.3.get(2) == Some(&Val::Num(0.0)) { return Err(format!("go failed without cause|{}", e.3[0].render())); } count(r.s, "errors_caught", !ok as u64); }
        for e in evs("j") { if e.3[1] != Val::ok(Val::Num(num(&e.3[0]) as f64 + 2.0)) { return Err(format!("joined a wrong value|go f({}) gave {}", e.3[0].render(), e.3[1].render())); } count(r.s, "threads_joined", 1); }
        if evs("j").len() != ids.iter().filter(|i| started.contains(i)).count() { return Err("joined threads are missing|".into()); }
        for e in evs("nj") { let id = num(&e.3[0]); let ok = started.contains(&id); let want = if ok { Val::ok(Val::ok(Val::Num(id as f64 + 2.0))) } else { Val::ok(Val::Err(Box::new(Val::str("no thread")))) }; if e.3[1] != want { return Err(format!("joined a wrong value|nested {id} gave {}", e.3[1].render())); } }
        let mut bodies: Vec<u64> = evs("b").iter().map(|e| num(&e.3[0])).collect(); bodies.sort();
        let mut st = started.clone(); st.sort();
        if bodies != st { return Err(format!("started threads and executed bodies differ|{st:?} {bodies:?}")); }
        let mut msgs: Vec<u64> = vec![];
        for e in evs("msg") { match e.3[0].arr() { Some([Val::Num(x), a]) if a.arr().map_or(false, |a| a.len() == 2) => msgs.push(*x as u64), _ => return Err(format!("message has a wrong content|{}", e.3[0].render())) } }
        msgs.sort(); if msgs != st { return Err(format!("messages and started calls differ|{msgs:?} {st:?}")); }
        for e in evs("m") { let ok = e.3[1] == Val::ok(Val::Num(42.0)); if !ok && !matches!(e.3[1], Val::Err(_)) { return Err(format!("loaded module gave a wrong result|{}", e.3[1].render())); } if !ok && e.3[2] == Val::Num(0.0) { return Err(format!("loading failed without cause|{}", e.3[1].render())); } count(r.s, "programs_loaded", ok as u64); }
        for e in evs("k") { if e.3[0] != Val::Num(3.0) { return Err(format!("local variable changed|{}", e.3[0].render())); } }
        let e = evs("end"); let want: u64 = ids.iter().filter(|i| **i != 1000).sum();
        if e.len() != 1 || e[0].3[0] != Val::Arr(vec![Val::Num(7.0), Val::Num(8.0)]) || e[0].3[1] != Val::Num(want as f64) { return Err(format!("local variable changed|{:?}", e)); }
        count(r.s, "oracle_checks", 1);
        Ok(())
    });
    Box::new(s)
}
