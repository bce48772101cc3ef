//! Deterministic random numbers (splitmix64) and boundary-rich generators.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.u64() % n }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64/(1u64 << 53) as f64 }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo)*self.f() }
    pub fn sym(&mut self, r: f64) -> f64 { self.range(-r, r) }
    pub fn coin(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    /// Magnitude log-uniform in [10^lo,10^hi], random sign.
    pub fn logsym(&mut self, lo: f64, hi: f64) -> f64 {
        let v = 10f64.powf(self.range(lo, hi));
        if self.coin() { v } else { -v }
    }
}

/// v moved by k representable doubles.
pub fn nudge(v: f64, k: i64) -> f64 {
    if !v.is_finite() { return v; }
    let b = v.to_bits() as i64;
    let ord = if b < 0 { i64::MIN.wrapping_sub(b) } else { b };
    let o = ord + k;
    let b = if o < 0 { i64::MIN.wrapping_sub(o) } else { o };
    f64::from_bits(b as u64)
}

/// A Julian date (exactly representable base plus fraction) as a two-part
/// date: many ways to split it.
pub fn split(r: &mut Rng, day: f64, frac: f64) -> (f64, f64) {
    let (a, b) = match r.below(9) {
        0 => (day + frac, 0.0),
        1 => (day, frac),
        2 => (2400000.5, day - 2400000.5 + frac),
        3 => (2451545.0, day - 2451545.0 + frac),
        4 => (day + 1.0, frac - 1.0),
        5 => { let k = r.int(-100000, 100000) as f64; (day + k, frac - k) }
        6 => { let h = day/2.0; (h, h + frac) }
        7 => { let k = r.int(1, 40) as f64; (day - 0.5*k, frac + 0.5*k) }
        _ => { let h = r.f(); (day - h, frac + h) }
    };
    if r.coin() { (a, b) } else { (b, a) }
}

/// Now and then gives one of the numbers a value that ordinary draws seldom
/// produce, or ties two of them to each other; magnitudes stay below `max`.
pub fn spice(r: &mut Rng, max: f64, v: &mut [f64]) {
    if r.below(8) != 0 { return; }
    let i = r.below(v.len() as u64) as usize;
    let j = r.below(v.len() as u64) as usize;
    let w = v[j];
    let x = match r.below(14) {
        0 => 0.0, 1 => -0.0, 2 => 0.5, 3 => -0.5,
        4 => r.int(-200, 200) as f64 + 0.5,
        5 => r.int(-200, 200) as f64,
        6 => r.pick(&[1.0, -1.0])*(1.0 - r.f()*1e-3),
        7 => r.logsym(-17.0, -12.0),
        8 => w, 9 => -w, 10 => 0.5 - w, 11 => 1.0 - w,
        12 => r.logsym(max.min(1e15).log10() - 2.0, max.min(1e15).log10()),
        _ => r.logsym(-8.0, -5.0),
    };
    if x.abs() <= max { v[i] = x; }
}
