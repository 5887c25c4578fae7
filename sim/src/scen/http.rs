//! Downloads over a faulty network (C16). The transport below crate reqwest is simulated.
use super::script::{evs, script};
use crate::engine::{clip, count, Plan, Probe};
use crate::rng::{Gen, Rng};
use crate::sim::{self, Cfg};
use crate::val::Val;
use crate::{data, host};
use std::io::{self, Read};

static mut SERVER: Vec<(String, Option<(u16, Vec<u8>)>)> = Vec::new();
struct Body { b: Vec<u8>, pos: usize }
impl Read for Body {
    fn read(&mut self, o: &mut [u8]) -> io::Result<usize> {
        if sim::host_fault(sim::F_R_EINTR, 1).is_some() { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        if let Some(k) = sim::host_fault(sim::F_NET, 3) { return Err(io::Error::new([io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut][k as usize], "connection broken")); }
        let mut n = (self.b.len() - self.pos).min(o.len());
        if n > 1 { if let Some(k) = sim::host_fault(sim::F_R_SHORT, n as u64) { n = 1 + k as usize % n; } }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]); self.pos += n;
        Ok(n)
    }
}
fn transport(u: &str) -> Result<(u16, Box<dyn Read + Send>), String> {
    if sim::host_fault(sim::F_NET, 1).is_some() { return Err("connection refused".into()); }
    for (n, a) in unsafe { SERVER.iter() } { if n == u { return match a { None => Err("connection refused".into()), Some((s, b)) => Ok((*s, Box::new(Body { b: b.clone(), pos: 0 }))) }; } }
    Err("no such host".into())
}
#[derive(Clone)]
enum Op { Text(usize), Down(usize, String), Meta(usize) }
pub fn make(g: &mut Gen) -> Box<dyn Plan> {
    #[cfg(feature = "http")]
    let _ = reqwest::TRANSPORT.set(transport);
    let nu = g.r.range(2, 5); let mut urls: Vec<(String, Option<(u16, Vec<u8>)>)> = vec![];
    for i in 0..nu {
        let mut r = g.r.fork(); let n = match r.below(5) { 0 => 0, 1 => r.below(40), 2 => *r.pick(&[8191usize, 8192, 8193, 16384]), 3 => r.range(100, 3000), _ => r.range(9000, 40000) };
        let mut b = data::big(&mut r, n).into_bytes();
        if r.chance(1, 6) { let at = r.below(b.len() + 1); b.insert(at, 0xff); }
        if r.chance(1, 5) { b = (0..r.range(0, 200)).map(|_| format!("{} ", r.below(1000))).collect::<String>().into_bytes(); }
        let status = *r.pick(&[200u16, 200, 200, 200, 200, 404, 500, 206, 201, 204, 302, 403, 503]);
        let name = match r.below(12) { 0 => format!("no scheme {i}"), 1 => format!("file{i}.txt"), _ => format!("http://host/{i}") };
        urls.push((name, if r.chance(1, 12) { None } else { Some((status, b)) }));
    }
    let nt = g.r.range(1, 3); let (mut src, mut b) = (String::new(), String::new()); let mut ops: Vec<Op> = vec![];
    for t in 0..nt {
        let mut o = format!("fn w{t}() -> f64 {{\n"); let no = g.r.range(1, 5);
        for mut r in g.items(no) {
            let k = ops.len(); let u = r.below(nu); let n = &urls[u].0;
            let c = match r.below(5) { 0 | 1 => { ops.push(Op::Text(u)); format!("load_string(url: \"{n}\")") } 2 => { ops.push(Op::Meta(u)); format!("load(meta: \"/sim/meta\", url: \"{n}\")") } _ => { let f = if r.chance(1, 15) { "/sim/dir".into() } else { format!("/sim/d{t}_{}", r.below(2)) }; ops.push(Op::Down(u, f.clone())); format!("download(url: \"{n}\", file: \"{f}\")") } };
            o += &format!("    h{k} := hf()\n    r{k} := try {c}\n    ev([\"o\", {k}, r{k}, hf() - h{k}])\n");
            if let Op::Down(_, f) = &ops[k] { o += &format!("    disk(\"{f}\")\n"); }
        }
        src += &(o + "    return 1\n}\n"); b += &format!("    t{t} := go w{t}()\n");
    }
    for t in 0..nt { b += &format!("    j{t} := join(thread: t{t})\n    ev([\"j\", j{t}])\n"); }
    src += &format!("fn main() {{\n{b}}}\n");
    let mut s = script(src); s.steps = 80_000_000;
    s.notes = urls.iter().map(|(n, a)| format!("// {n}: {}\n", match a { None => "refused".into(), Some((s, b)) => format!("{s} {} bytes {:?}", b.len(), clip(&String::from_utf8_lossy(b), 100)) })).collect();
    s.setf = Box::new(|r: &mut Rng, c: &mut Cfg, _p: &Probe| {
        for k in [sim::F_R_EINTR, sim::F_R_SHORT, sim::F_W_EINTR, sim::F_W_SHORT] { if r.chance(2, 3) { c.pf[k] = *r.pick(&[4000, 20000, 40000]); } }
        c.max_faults = 60;
        match r.below(4) { 0 | 1 => c.pf[sim::F_NET] = *r.pick(&[2000, 8000, 20000]), 2 => c.pf[*r.pick(&[sim::F_W_EIO, sim::F_W_ENOSPC, sim::F_OPEN_FAIL, sim::F_R_EIO])] = *r.pick(&[4000, 15000]), _ => if r.chance(1, 3) { c.disk_cap = r.below(60000) as u64; } }
    });
    let u2 = urls.clone();
    s.prep = Box::new(move |m| { unsafe { SERVER = u2.clone(); } m.put_dir("/sim/dir"); m.put_file("/sim/meta", b"10 doc = .r?([.$:\"num\" .w?])\n"); });
    s.judge = Box::new(move |r| {
        if let Err(e) = &r.result { return Err(format!("program failed|{e}")); }
        for e in evs("j") { if e.3[0] != Val::ok(Val::Num(1.0)) { return Err(format!("thread failed|{}", e.3[0].render())); } }
        let all = host::events().clone();
        for e in evs("o") {
            let k = e.3[0].num().unwrap() as usize; let hard = e.3[2].num().unwrap() > 0.0;
            let got = match &e.3[1] { Val::Ok(x) => match &**x { Val::Ok(y) => Some((**y).clone()), _ => None }, _ => None };
            let u = match &ops[k] { Op::Text(u) | Op::Down(u, _) | Op::Meta(u) => *u };
            let body = match &urls[u] { (n, Some((200, b))) if n.starts_with("http") => Some(b.clone()), _ => None };
            let text = body.clone().and_then(|b| String::from_utf8(b).ok());
            let want: Option<Val> = match &ops[k] {
                Op::Text(_) => text.map(Val::Str),
                Op::Down(_, f) => if f == "/sim/dir" { None } else { body.clone().map(|_| Val::Str(f.clone())) },
                Op::Meta(_) => match text { None => None, Some(t) if t.bytes().all(|c| c.is_ascii_digit() || c == b' ') => { let mut o = vec![]; let mut at = 0; for w in t.split(' ').filter(|w| !w.is_empty()) { o.push(Val::Arr(vec![Val::Num(at as f64), Val::Num(w.len() as f64), Val::str("f64"), Val::str("num"), Val::Num(w.parse().unwrap())])); at += w.len() + 1; } Some(Val::Arr(o)) } Some(_) => { if got.is_none() { continue; } None } },
            };
            count(r.s, "loads_checked", 1);
            match (&want, &got) {
                (None, None) => {}
                (Some(_), None) if hard => { count(r.s, "errors_caught", 1); }
                (Some(_), None) => return Err(format!("download failed without cause|operation {k}: {}", clip(&e.3[1].render(), 400))),
                (Some(a), Some(b)) if a == b => if let (Op::Down(_, f), Some(b)) = (&ops[k], &body) {
                    let d = all[e.0 + 1..].iter().find(|x| x.tid == e.1).and_then(|x| x.v.arr()).map(|x| x[2].clone());
                    let w = Val::some(Val::Str(String::from_utf8(b.clone()).unwrap_or_else(|e| format!("NOT UTF-8 {:?}", e.as_bytes()))));
                    if d.as_ref() != Some(&w) { return Err(format!("downloaded file is not complete|operation {k} to {f}: {} instead of {}", clip(&format!("{d:?}"), 300), clip(&w.render(), 300))); }
                    count(r.s, "saves_checked", 1);
                },
                (None, Some(x)) => return Err(format!("download succeeded although it should fail|operation {k} gave {}", clip(&x.render(), 300))),
                (Some(a), Some(b)) => return Err(format!("download gave a wrong content|operation {k} gave {} instead of {}", clip(&b.render(), 300), clip(&a.render(), 300))),
            }
        }
        Ok(())
    });
    Box::new(s)
}
