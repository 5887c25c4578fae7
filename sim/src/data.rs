//! Independent reader and writer of Dyon's data format (the text of `save(data:file:)` and `load_data`).
use crate::rng::Rng;
use crate::val::Val;
use std::collections::BTreeMap;

/// A value that the data format can represent.
pub fn gen(r: &mut Rng, depth: u32) -> Val {
    let k = if depth == 0 { r.weighted(&[6, 2, 4, 2, 0, 0, 0, 0]) } else { r.weighted(&[4, 2, 3, 2, 5, 5, 2, 2]) };
    match k {
        0 => num(r),
        1 => Val::Bool(r.chance(1, 2)),
        2 => Val::Str(text(r)),
        3 => { let mut c = || match r.below(5) { 0 => 0.0, 1 => -(r.below(40) as f32), 2 => r.below(100) as f32 + 0.25, 3 => 1.0e-5, _ => r.below(100) as f32 }; Val::Vec4([c(), c(), c(), c()]) }
        4 => Val::Arr((0..r.below(5)).map(|_| gen(r, depth - 1)).collect()),
        5 => { let mut m = BTreeMap::new(); for _ in 0..r.below(4) { let k = match r.below(6) { 0 => text(r), 1 => "a b".into(), 2 => "true".into(), 3 => "é1".into(), _ => (*r.pick(&["a", "b", "key", "x_y", "link", "none"])).to_string() }; m.insert(k, gen(r, depth - 1)); } Val::Obj(m) }
        6 => Val::Link((0..r.below(5)).map(|_| match r.below(3) { 0 => Val::Str(text(r)), 1 => Val::Bool(r.chance(1, 2)), _ => num(r) }).collect()),
        _ => if r.chance(1, 3) { Val::none() } else { Val::some(gen(r, depth - 1)) },
    }
}
pub fn num(r: &mut Rng) -> Val { Val::Num(match r.below(10) { 0 => 0.0, 1 => -(r.below(1000) as f64), 2 => r.below(1000) as f64 / 7.0, 3 => 1.0e21, 4 => -2.5e-7, 5 => 0.1 + 0.2, 6 => 1.0e15 + 0.5, _ => r.below(100000) as f64 }) }
pub fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 2, 5, 9, 20]);
    (0..n).map(|_| *r.pick(&["a", "b", "Z", "0", " ", "\"", "\\", "\n", "\t", "é", "λ", "漢", "😀", "{", "]", ",", ":", "//", "\r", "'", "/", "\u{1}", "\u{0}", "\u{8}", "\u{7f}", "\u{2028}", "-", ".", ";", "(", ")", "+", "#", "@"])).collect()
}
/// Text of `n` bytes or a little more.
pub fn big(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    while s.len() < n { match r.below(8) { 0 => s.push_str(*r.pick(&["é", "λ", "漢", "😀"])), 1 => s.push('\n'), _ => for _ in 0..r.range(1, 9) { s.push((b'a' + r.below(26) as u8) as char) } } }
    s
}
fn quote(s: &str, r: &mut Rng, o: &mut String) {
    o.push('"');
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) > 127 && (c as u32) < 0xd800 && r.chance(1, 3) => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
}
fn ws(r: &mut Rng, o: &mut String) { match r.below(12) { 0 => o.push_str("  "), 1 => o.push('\n'), 2 => o.push_str("\t "), 3 => o.push_str(" // note\n"), _ => {} } }
/// Text that denotes the value, with random layout.
pub fn write(v: &Val, r: &mut Rng, o: &mut String) {
    match v {
        Val::Num(x) => o.push_str(&format!("{x}")),
        Val::Bool(b) => o.push_str(&format!("{b}")),
        Val::Str(s) => quote(s, r, o),
        Val::Vec4(x) => { o.push_str(&format!("({}, {}, {}, {})", x[0], x[1], x[2], x[3])) }
        Val::Arr(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { ws(r, o); o.push(','); } ws(r, o); write(x, r, o); } ws(r, o); o.push(']'); }
        Val::Obj(m) => { o.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { o.push(','); } ws(r, o); if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') && r.chance(2, 3) { o.push_str(k) } else { quote(k, r, o) } o.push(':'); o.push(' '); write(x, r, o); ws(r, o); } o.push('}'); }
        Val::Link(a) => { o.push_str("link {"); for x in a { o.push(' '); write(x, r, o); } o.push_str(" }"); }
        Val::Opt(None) => o.push_str("none()"),
        Val::Opt(Some(x)) => { o.push_str("some("); write(x, r, o); o.push(')'); }
        _ => panic!("not data"),
    }
}
/// Reads a complete text; `None` if it is not well formed.
pub fn read(s: &str) -> Option<Val> { let mut p = P { s: s.as_bytes(), i: 0, t: s }; p.ws(); let v = p.val()?; p.ws(); if p.i == s.len() { Some(v) } else { None } }
struct P<'a> { s: &'a [u8], i: usize, t: &'a str }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1; } }
    fn eat(&mut self, x: &str) -> bool { if self.t[self.i..].starts_with(x) { self.i += x.len(); true } else { false } }
    fn string(&mut self) -> Option<String> {
        if !self.eat("\"") { return None; }
        let mut o = String::new(); let mut it = self.t[self.i..].char_indices();
        while let Some((k, c)) = it.next() {
            match c {
                '"' => { self.i += k + 1; return Some(o); }
                '\\' => match it.next()?.1 { 'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'), 'u' => { let mut x = 0; for _ in 0..4 { x = x * 16 + it.next()?.1.to_digit(16)?; } o.push(char::from_u32(x)?); } c => o.push(c) },
                c => o.push(c),
            }
        }
        None
    }
    fn num(&mut self) -> Option<f64> { let b = self.i; while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) { self.i += 1; } self.t[b..self.i].parse().ok() }
    fn val(&mut self) -> Option<Val> {
        if self.eat("{") { let mut m = BTreeMap::new(); self.ws(); if self.eat("}") { return Some(Val::Obj(m)); }
            loop { self.ws(); let k = if self.t[self.i..].starts_with('"') { self.string()? } else { let e = self.t[self.i..].find(|c: char| ":,{}[]\" \n".contains(c))?; if e == 0 { return None; } let k = self.t[self.i..self.i + e].to_string(); self.i += e; k };
                self.ws(); if !self.eat(":") { return None; } self.ws(); let v = self.val()?; if m.insert(k, v).is_some() { return None; } self.ws(); if self.eat("}") { return Some(Val::Obj(m)); } if !self.eat(",") { return None; } } }
        if self.eat("[") { let mut a = vec![]; self.ws(); if self.eat("]") { return Some(Val::Arr(a)); } loop { self.ws(); a.push(self.val()?); self.ws(); if self.eat("]") { return Some(Val::Arr(a)); } if !self.eat(",") { return None; } } }
        if self.eat("(") { let mut x = [0f32; 4]; for k in 0..4 { self.ws(); x[k] = { let b = self.i; self.num()?; self.t[b..self.i].parse().ok()? }; self.ws(); if self.eat(")") { return Some(Val::Vec4(x)); } if !self.eat(",") { return None; } } return None; }
        if self.eat("link") { self.ws(); if !self.eat("{") { return None; } let mut a = vec![]; loop { self.ws(); if self.eat("}") { return Some(Val::Link(a)); } a.push(self.val()?); } }
        if self.t[self.i..].starts_with('"') { return self.string().map(Val::Str); }
        if self.eat("true") { return Some(Val::Bool(true)); }
        if self.eat("false") { return Some(Val::Bool(false)); }
        if self.eat("none()") { return Some(Val::none()); }
        if self.eat("some(") { self.ws(); let v = self.val()?; self.ws(); return if self.eat(")") { Some(Val::some(v)) } else { None }; }
        self.num().map(Val::Num)
    }
}
