//! Deterministic generator (splitmix64) and float distributions.
use scarlet::math::scalar::GFloat;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03));
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    /// inclusive range
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}

/// A concrete float type of the library, with exact encoding.
pub trait F: GFloat + std::panic::RefUnwindSafe + 'static {
    const W: u32;
    const EMIN: i32; // exponent of the least subnormal
    const EMAX: i32;
    const MB: u32;
    fn enc(self) -> String;
    fn of(x: f64) -> Self;
    fn make(neg: bool, mant: u64, exp: i32) -> Self; // +-mant * 2^exp, rounded
    fn maxv() -> Self;
    fn tiny() -> Self;
    fn fin(self) -> bool;
    fn nanq(self) -> bool;
    fn d(self) -> f64;
}
impl F for f32 {
    const W: u32 = 32;
    const EMIN: i32 = -149;
    const EMAX: i32 = 127;
    const MB: u32 = 24;
    fn enc(self) -> String {
        format!("[{}]", self.to_bits() as i32)
    }
    fn of(x: f64) -> Self {
        x as f32
    }
    fn make(neg: bool, mant: u64, exp: i32) -> Self {
        let v = (mant as f64) * 2f64.powi(exp);
        if neg { -v as f32 } else { v as f32 }
    }
    fn maxv() -> Self {
        f32::MAX
    }
    fn tiny() -> Self {
        f32::from_bits(1)
    }
    fn fin(self) -> bool {
        self.to_bits() & 0x7f80_0000 != 0x7f80_0000
    }
    fn nanq(self) -> bool {
        self != self
    }
    fn d(self) -> f64 {
        self as f64
    }
}
impl F for f64 {
    const W: u32 = 64;
    const EMIN: i32 = -1074;
    const EMAX: i32 = 1023;
    const MB: u32 = 53;
    fn enc(self) -> String {
        let b = self.to_bits();
        format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
    }
    fn of(x: f64) -> Self {
        x
    }
    fn make(neg: bool, mant: u64, exp: i32) -> Self {
        let h = exp / 2;
        let v = (mant as f64) * 2f64.powi(h) * 2f64.powi(exp - h);
        if neg { -v } else { v }
    }
    fn maxv() -> Self {
        f64::MAX
    }
    fn tiny() -> Self {
        f64::from_bits(1)
    }
    fn fin(self) -> bool {
        (self.to_bits() >> 52) & 0x7ff != 0x7ff
    }
    fn nanq(self) -> bool {
        self != self
    }
    fn d(self) -> f64 {
        self
    }
}

/// small integers and simple fractions
pub fn simple<T: F>(r: &mut Rng) -> T {
    let n = r.int(-6, 6) as f64;
    match r.below(4) {
        0 => T::of(n / 2.0),
        1 => T::of(n / 8.0),
        _ => T::of(n),
    }
}
/// full random mantissa, exponent in [-lim, lim]
pub fn mid<T: F>(r: &mut Rng, lim: i64) -> T {
    let mant = (1u64 << (T::MB - 1)) | (r.u64() & ((1u64 << (T::MB - 1)) - 1));
    let e = r.int(-lim, lim) as i32;
    let neg = r.bool();
    T::make(neg, mant, e - (T::MB as i32 - 1))
}
/// everything finite: zeros, subnormals, limits, ordinary values
pub fn any<T: F>(r: &mut Rng) -> T {
    match r.below(16) {
        0 => T::of(0.0),
        1 => T::neg_zero(),
        2 => {
            let m = r.below(9);
            T::make(r.bool(), m, T::EMIN)
        }
        3 => {
            let m = r.u64() & ((1u64 << (T::MB - 1)) - 1);
            T::make(r.bool(), m, T::EMIN)
        }
        4 => {
            let m = (1u64 << (T::MB - 1)) | (r.u64() & ((1u64 << (T::MB - 1)) - 1));
            T::make(r.bool(), m, T::EMAX - (T::MB as i32 - 1) - r.below(3) as i32)
        }
        5 => {
            let v = T::maxv();
            if r.bool() { v } else { -v }
        }
        6 => {
            // around powers of two
            let p = T::make(r.bool(), 1, r.int(-20, 20) as i32);
            match r.below(3) {
                0 => p,
                1 => p * (T::one() + T::make(false, 1, 1 - T::MB as i32)),
                _ => p * (T::one() - T::make(false, 1, -(T::MB as i32))),
            }
        }
        7 | 8 | 9 => simple(r),
        10 => {
            let lim = (-T::EMIN as i64) / 2;
            mid(r, lim)
        }
        _ => mid(r, 10),
    }
}
