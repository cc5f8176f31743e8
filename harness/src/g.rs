//! Choice-tape generator: every random decision of a case comes from here, is recorded, and can be
//! replayed and shrunk.

pub struct G {
    state: u64,
    pub tape: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    /// soundness mode: families may also produce odd instances that need not be correct
    pub wild: bool,
}

pub fn splitmix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    splitmix(h)
}

pub fn mix(a: u64, b: u64) -> u64 {
    splitmix(a.rotate_left(17) ^ splitmix(b))
}

impl G {
    pub fn new(seed: u64) -> Self {
        G { state: seed, tape: Vec::new(), replay: None, pos: 0, wild: false }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        G { state: 0, tape: Vec::new(), replay: Some(tape), pos: 0, wild: false }
    }
    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.state)
    }
    /// A number in 0..n (n >= 1). 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &self.replay {
            Some(t) => {
                let v = t.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
            None => {
                let r = self.next();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.tape.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn ur(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.u(xs.len());
        &xs[i]
    }
    pub fn pick_s(&mut self, xs: &[&'static str]) -> &'static str {
        xs[self.u(xs.len())]
    }
    /// weighted index
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.u(i + 1);
            xs.swap(i, j);
        }
    }
    /// small integer biased to near zero, in -m..=m
    pub fn small(&mut self, m: i64) -> i64 {
        let r = if self.chance(1, 4) { m } else { m.min(3) };
        let v = self.below((2 * r + 1) as u64) as i64;
        if v % 2 == 0 { v / 2 } else { -(v + 1) / 2 }
    }
    /// seed for data that is not shrunk
    pub fn seed(&mut self) -> u64 {
        self.below(1 << 32)
    }
}
