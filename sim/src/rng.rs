//! Seeded pseudo-random generator (splitmix64) used for every choice of the harness.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15) ^ b.wrapping_add(0x632be59bd9b4e019);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(mix(s, 0x5eed)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0, 1) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum(); let mut k = self.below(t);
        for (i, x) in w.iter().enumerate() { if k < *x { return i; } k -= x; }
        w.len() - 1
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

/// Source of workload choices with droppable items (used by the minimiser).
pub struct Gen { pub r: Rng, pub drops: Vec<u32>, pub items: u32 }
impl Gen {
    pub fn new(seed: u64, drops: &[u32]) -> Gen { Gen { r: Rng::new(seed), drops: drops.to_vec(), items: 0 } }
    /// A droppable item: `None` if the minimiser removed it. Consumes the same randomness either way.
    pub fn item(&mut self) -> Option<Rng> {
        let s = self.r.fork(); let i = self.items; self.items += 1;
        if self.drops.contains(&i) { None } else { Some(s) }
    }
    pub fn items(&mut self, n: usize) -> Vec<Rng> { (0..n).filter_map(|_| self.item()).collect() }
}
