//! Random literal values together with their Dyon source text.
use crate::rng::Rng;
use crate::val::Val;
use std::collections::BTreeMap;

pub fn num(r: &mut Rng) -> (String, Val) {
    let x = match r.below(8) { 0 => 0.0, 1 => -(r.below(50) as f64) - 1.0, 2 => r.below(100) as f64 + 0.5, _ => r.below(1000) as f64 };
    (format!("{x}"), Val::Num(x))
}
pub fn text(r: &mut Rng) -> (String, Val) {
    let n = r.below(9); let cs = ["a", "b", "z", "0", " ", "-", "_", "é", "λ", ","];
    let s: String = (0..n).map(|_| *r.pick(&cs)).collect();
    (format!("\"{s}\""), Val::Str(s))
}
/// Any value that can be written as an expression; `depth` bounds nesting.
pub fn any(r: &mut Rng, depth: u32) -> (String, Val) {
    let k = if depth == 0 { r.weighted(&[6, 2, 3, 2, 0, 0, 0, 0, 0, 1]) } else { r.weighted(&[5, 2, 3, 2, 5, 5, 2, 3, 3, 1]) };
    match k {
        0 => num(r),
        1 => { let b = r.chance(1, 2); (format!("{b}"), Val::Bool(b)) }
        2 => text(r),
        3 => { let v: Vec<f32> = (0..4).map(|_| r.below(20) as f32).collect(); (format!("({}, {}, {}, {})", v[0], v[1], v[2], v[3]), Val::Vec4([v[0], v[1], v[2], v[3]])) }
        4 => { let n = r.below(4); let xs: Vec<_> = (0..n).map(|_| any(r, depth - 1)).collect(); (format!("[{}]", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(", ")), Val::Arr(xs.into_iter().map(|x| x.1).collect())) }
        5 => { let n = r.range(0, 3); let mut m = BTreeMap::new(); let mut s = vec![];
            for i in 0..n { let key = ["a", "b", "key", "x"][(r.below(4) + i) % 4].to_string(); if m.contains_key(&key) { continue; } let (t, v) = any(r, depth - 1); s.push(format!("{key}: {t}")); m.insert(key, v); }
            (format!("{{{}}}", s.join(", ")), Val::Obj(m)) }
        6 => { let n = r.below(4); let xs: Vec<_> = (0..n).map(|_| match r.below(3) { 0 => text(r), 1 => { let b = r.chance(1, 2); (format!("{b}"), Val::Bool(b)) } _ => { let x = r.below(100) as f64; (format!("{x}"), Val::Num(x)) } }).collect(); (format!("link {{ {} }}", xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" ")), Val::Link(xs.into_iter().map(|x| x.1).collect())) }
        7 => if r.chance(1, 3) { ("none()".into(), Val::Opt(None)) } else { let (t, v) = any(r, depth - 1); (format!("some({t})"), Val::some(v)) },
        8 => { let (t, v) = any(r, depth - 1); if r.chance(1, 2) { (format!("ok({t})"), Val::Ok(Box::new(v))) } else { (format!("err({t})"), Val::Err(Box::new(v))) } }
        _ => { let mut m = [[0f32; 4]; 4]; let mut rows = vec![]; for i in 0..4 { for j in 0..4 { m[j][i] = r.below(9) as f32; } rows.push(format!("{},{},{},{}", m[0][i], m[1][i], m[2][i], m[3][i])); } (format!("mat4 {{{}}}", rows.join("; ")), Val::Mat4(m)) }
    }
}
