//! C01, C03, C04: interval programs, comparisons and set queries.
use crate::out::{guard, Ev};
use crate::rng::{self, Rng, F};
use crate::Ctx;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
use std::cmp::Ordering;

pub type Iv<T> = Interval<T>;

pub fn enc<T: F>(v: Iv<T>) -> String {
    format!("{{\"lo\":{},\"hi\":{}}}", v.inf.enc(), v.sup.enc())
}
pub fn raw<T: F>(lo: T, hi: T) -> Iv<T> {
    Iv { inf: lo, sup: hi }
}

/// intervals of every kind (finite bounds; `inf` allows infinite ones)
pub fn gen<T: F>(r: &mut Rng, inf: bool) -> Iv<T> {
    let mk = |a: T, b: T| if a <= b { raw(a, b) } else { raw(b, a) };
    let k = r.below(if inf { 14 } else { 13 });
    match k {
        0 | 1 => {
            let x = rng::any::<T>(r);
            raw(x, x)
        }
        2 | 3 => mk(rng::simple(r), rng::simple(r)),
        4 => {
            // touching zero
            let x = rng::any::<T>(r);
            let z = if r.bool() { T::of(0.0) } else { T::neg_zero() };
            mk(z, x)
        }
        5 => {
            // a few ulps wide
            let x = rng::mid::<T>(r, 20);
            let mut y = x;
            for _ in 0..r.int(1, 3) {
                y = up(y);
            }
            raw(x, y)
        }
        6 => {
            // straddling zero
            let x = rng::mid::<T>(r, 12);
            let y = rng::mid::<T>(r, 12);
            mk(-absf(x), absf(y))
        }
        7 | 8 => mk(rng::mid(r, 6), rng::mid(r, 6)),
        9 => {
            // positive or negative away from zero
            let x = absf(rng::mid::<T>(r, 8));
            let y = absf(rng::mid::<T>(r, 8));
            let v = mk(x, y);
            if r.bool() { v } else { raw(-v.sup, -v.inf) }
        }
        13 => {
            let x = rng::any::<T>(r);
            let i = T::of(f64::INFINITY);
            match r.below(5) {
                0 => raw(x, i),
                1 => raw(-i, x),
                2 => raw(-i, i),
                3 => raw(i, i),
                _ => raw(-i, -i),
            }
        }
        _ => mk(rng::any(r), rng::any(r)),
    }
}
/// two intervals, sometimes sharing bounds with each other or with the limits of the format
pub fn gen2<T: F>(r: &mut Rng, inf: bool) -> (Iv<T>, Iv<T>) {
    let mk = |a: T, b: T| if a <= b { raw(a, b) } else { raw(b, a) };
    if r.chance(1, 4) {
        // few values, so that they meet
        let one = T::of(1.0);
        let z = T::of(0.0);
        let least = T::make(false, 1, T::EMIN + T::MB as i32 - 1);
        let base = [T::maxv(), least, T::tiny(), one, up(one), z, T::maxv() * T::of(0.5), T::of(3.0), least - T::tiny()];
        let mut p = || {
            let x = r.pick(&base);
            if r.bool() { -x } else { x }
        };
        let (a, b, c, d) = (p(), p(), p(), p());
        let x = if r.chance(1, 3) { raw(a, a) } else { mk(a, b) };
        let y = if r.chance(1, 3) { raw(c, c) } else { mk(c, d) };
        return (x, y);
    }
    let x = gen::<T>(r, inf);
    let z = gen::<T>(r, inf);
    let y = match r.below(10) {
        0 => x,
        1 => raw(-x.sup, -x.inf),
        2 => mk(x.inf, z.sup),
        3 => mk(x.sup, z.sup),
        4 => raw(x.inf, x.inf),
        5 => raw(x.inf * T::of(2.0), x.sup * T::of(2.0)),
        _ => z,
    };
    (x, y)
}
pub fn absf<T: F>(x: T) -> T {
    if x.d() < 0.0 { -x } else { x }
}
// independent of the library's next_up
pub fn up<T: F>(x: T) -> T {
    let e = T::make(false, 1, -(T::MB as i32)); // half an ulp of 1
    let y = x + absf(x) * e * T::of(1.5);
    if y > x { y } else { x }
}

fn iv_out<T: F>(e: Ev, r: Option<Iv<T>>) -> Ev {
    match r {
        Some(v) => e.b("panic", false).raw("o", &enc(v)),
        None => e.b("panic", true),
    }
}

struct Machine<T: F> {
    r: [Iv<T>; 4],
}
impl<T: F> Machine<T> {
    fn new(c: &mut Ctx) -> Self {
        c.out.emit(Ev::new("begin").i("w", T::W as i64));
        Machine { r: [raw(T::of(0.0), T::of(0.0)); 4] }
    }
    fn set(&mut self, d: usize, r: Option<Iv<T>>) {
        self.r[d] = match r {
            Some(v) if v.inf <= v.sup => v,
            _ => raw(T::of(0.0), T::of(0.0)),
        }
    }
    fn load(&mut self, c: &mut Ctx, d: usize, v: Iv<T>) {
        let how = c.rng.below(3);
        let r = guard(|| match how {
            0 => Iv::new(v.inf, v.sup),
            1 if v.inf == v.sup && v.inf.d().is_sign_negative() == v.sup.d().is_sign_negative() => Iv::from(v.inf),
            _ => Iv::from((v.inf, v.sup)),
        });
        let k = c.rng.int(0, 4);
        c.out.emit(iv_out(Ev::new("load").i("d", d as i64).raw("x", &enc(v)).i("k", k), r));
        self.set(d, r);
    }
    fn op2(&mut self, c: &mut Ctx, f: &str, d: usize, a: usize, b: usize) {
        let (x, y) = (self.r[a], self.r[b]);
        let v = c.rng.below(2);
        let r = guard(|| match (f, v) {
            ("add", 0) => x + y,
            ("add", _) => { let mut z = x; z += y; z }
            ("sub", 0) => x - y,
            ("sub", _) => { let mut z = x; z -= y; z }
            ("mul", 0) => x * y,
            ("mul", _) => { let mut z = x; z *= y; z }
            ("div", 0) => x / y,
            ("div", _) => { let mut z = x; z /= y; z }
            ("min", 0) => Scalar::min(x, y),
            ("min", _) => Scalar::min_max(x, y).0,
            ("max", 0) => Scalar::max(x, y),
            ("max", _) => Scalar::min_max(x, y).1,
            ("union", _) => x.union(y),
            _ => unreachable!(),
        });
        c.out.emit(iv_out(Ev::new("op2").s("f", f).i("d", d as i64).i("a", a as i64).i("b", b as i64), r));
        self.set(d, r);
    }
    fn ops(&mut self, c: &mut Ctx, f: &str, d: usize, a: usize, s: T) {
        let x = self.r[a];
        let v = c.rng.below(3);
        let v = if v == 2 && !(x.inf.fin() && x.sup.fin() && s.fin() && s != T::of(0.0)) { 0 } else { v };
        let r = guard(|| match (f, v) {
            // the same operation as a monotonic map of the bounds
            ("add", 2) => x.map_monotonic_inc(|t| t + s),
            ("sub", 2) => x.map_monotonic_inc(|t| t - s),
            ("mul", 2) if s > T::of(0.0) => x.map_monotonic_inc(|t| t * s),
            ("mul", 2) => x.map_monotonic_dec(|t| t * s),
            ("div", 2) if s > T::of(0.0) => x.map_monotonic_inc(|t| t / s),
            ("div", 2) => x.map_monotonic_dec(|t| t / s),
            ("add", _) => x + s,
            ("sub", _) => x - s,
            ("mul", 0) => x * s,
            ("mul", _) => { let mut z = x; z *= s; z }
            ("div", 0) => x / s,
            ("div", _) => { let mut z = x; z /= s; z }
            _ => unreachable!(),
        });
        c.out.emit(iv_out(Ev::new("ops").s("f", f).i("d", d as i64).i("a", a as i64).f("s", s), r));
        self.set(d, r);
    }
    fn op1(&mut self, c: &mut Ctx, f: &str, d: usize, a: usize) {
        let x = self.r[a];
        let v = c.rng.below(2);
        let k = c.rng.int(0, 4);
        let r = guard(|| match (f, v) {
            ("neg", _) => -x,
            ("square", 0) => x.square(),
            ("square", _) => Scalar::square(x),
            ("sqrt", 0) => Iv::sqrt(x),
            ("sqrt", _) => GFloat::sqrt(x),
            ("abs", _) => SignedScalar::abs(x),
            ("signum", _) => SignedScalar::signum(x),
            ("recip", _) => GFloat::recip(x),
            ("id", _) => x.extend_by_ulp(),
            _ => unreachable!(),
        });
        c.out.emit(iv_out(Ev::new("op1").s("f", f).i("d", d as i64).i("a", a as i64).i("k", k), r));
        self.set(d, r);
    }
    fn op3(&mut self, c: &mut Ctx, d: usize, a: usize, b: usize, e: usize) {
        let (x, lo, hi) = (self.r[a], self.r[b], self.r[e]);
        if !(lo.sup <= hi.inf) {
            return;
        }
        let r = guard(|| Scalar::clamp(x, lo, hi));
        c.out.emit(iv_out(
            Ev::new("op3").s("f", "clamp").i("d", d as i64).i("a", a as i64).i("b", b as i64).i("c", e as i64), r));
        self.set(d, r);
    }
}

const OP2: [&str; 6] = ["add", "sub", "mul", "div", "min", "max"];
const OP1: [&str; 8] = ["neg", "square", "sqrt", "abs", "signum", "recip", "id", "sqrt"];
const OPS: [&str; 4] = ["add", "sub", "mul", "div"];

fn program<T: F>(c: &mut Ctx) {
    let mut m = Machine::<T>::new(c);
    for d in 0..4 {
        let inf = c.rng.chance(1, 8);
        let v = gen(&mut c.rng, inf);
        m.load(c, d, v);
    }
    for _ in 0..14 {
        let (d, a, b, e) = (c.rng.below(4) as usize, c.rng.below(4) as usize, c.rng.below(4) as usize, c.rng.below(4) as usize);
        match c.rng.below(12) {
            0 | 1 | 2 | 3 => {
                let f = c.rng.pick(&OP2);
                m.op2(c, f, d, a, b)
            }
            4 | 5 => {
                let f = c.rng.pick(&OPS);
                let s = rng::any::<T>(&mut c.rng);
                m.ops(c, f, d, a, s)
            }
            6 | 7 => {
                let f = c.rng.pick(&OP1);
                m.op1(c, f, d, a)
            }
            8 => m.op3(c, d, a, b, e),
            _ => {
                let v = gen(&mut c.rng, false);
                m.load(c, d, v)
            }
        }
    }
}

/// all operations on one pair of operands
fn sweep<T: F>(c: &mut Ctx, x: Iv<T>, y: Iv<T>) {
    let mut m = Machine::<T>::new(c);
    m.load(c, 0, x);
    m.load(c, 1, y);
    for f in OP2 {
        m.op2(c, f, 2, 0, 1);
        m.op2(c, f, 2, 0, 1);
        m.op2(c, f, 2, 1, 0);
    }
    for f in OP1 {
        m.op1(c, f, 2, 0);
        m.op1(c, f, 2, 1);
    }
    for f in OPS {
        m.ops(c, f, 2, 0, y.inf);
        m.ops(c, f, 2, 0, y.sup);
        m.ops(c, f, 2, 0, y.sup);
        m.ops(c, f, 2, 1, x.inf);
    }
    m.op2(c, "max", 3, 0, 1);
    m.op2(c, "min", 2, 0, 1);
    m.op3(c, 2, 0, 2, 3);
    m.op3(c, 2, 0, 1, 1);
    m.op2(c, "union", 3, 0, 1);
}

fn cmp<T: F>(c: &mut Ctx, x: Iv<T>, y: Iv<T>, t: T) {
    let pc = |o: Option<Ordering>| match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    };
    let r = guard(|| (x < y, x <= y, x > y, x >= y, x == y, x != y, pc(x.partial_cmp(&y))));
    let e = Ev::new("cmp").raw("x", &enc(x)).raw("y", &enc(y)).b("panic", r.is_none());
    c.out.emit(match r {
        Some(r) => e.sub("o", Ev::o().b("lt", r.0).b("le", r.1).b("gt", r.2).b("ge", r.3).b("eq", r.4).b("ne", r.5).i("pc", r.6)),
        None => e,
    });
    let r = guard(|| (x < t, x <= t, x > t, x >= t, x == t, x != t, pc(x.partial_cmp(&t))));
    let e = Ev::new("cmps").raw("x", &enc(x)).f("y", t).b("panic", r.is_none());
    c.out.emit(match r {
        Some(r) => e.sub("o", Ev::o().b("lt", r.0).b("le", r.1).b("gt", r.2).b("ge", r.3).b("eq", r.4).b("ne", r.5).i("pc", r.6)),
        None => e,
    });
}

fn query<T: F>(c: &mut Ctx, x: Iv<T>, t: T, u: T) {
    let r = guard(|| {
        Ev::o()
            .b("pos", x.is_positive()).b("neg", x.is_negative())
            .b("nonpos", x.is_nonpositive()).b("nonneg", x.is_nonnegative())
            .b("tpos", SignedScalar::is_positive(x)).b("tneg", SignedScalar::is_negative(x))
            .b("tnonpos", SignedScalar::is_nonpositive(x)).b("tnonneg", SignedScalar::is_nonnegative(x))
            .b("exact", x.is_exact()).b("has", x.contains(t)).b("range", x.in_range(t, u))
            .b("fin", GFloat::is_finite(x)).b("inf", GFloat::is_infinite(x)).b("nan", GFloat::is_nan(x))
            .b("zero", Scalar::is_zero(x)).b("one", Scalar::is_one(x))
    });
    let e = Ev::new("query").raw("x", &enc(x)).f("t", t).f("u", u).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}

fn sets<T: F>(c: &mut Ctx, x: Iv<T>, y: Iv<T>) {
    let i = guard(|| x.intersect(y));
    let r = guard(|| (x.union(y), x.is_same(y)));
    let e = Ev::new("set").raw("x", &enc(x)).raw("y", &enc(y)).b("panic", r.is_none()).b("ipanic", i.is_none());
    c.out.emit(match r {
        Some((u, s)) => e.sub("o", Ev::o().raw("union", &enc(u)).b("same", s).raw("inter", &enc(i.unwrap_or(x)))),
        None => e,
    });
}

pub trait Conv: F {
    fn conv(v: Iv<Self>) -> Self;
}
impl Conv for f32 {
    fn conv(v: Iv<f32>) -> f32 {
        f32::from(v)
    }
}
impl Conv for f64 {
    fn conv(v: Iv<f64>) -> f64 {
        f64::from(v)
    }
}
fn conv<T: Conv>(c: &mut Ctx, x: Iv<T>) {
    let r = guard(|| {
        Ev::o()
            .raw("pair", &enc(Iv::from((x.inf, x.sup))))
            .raw("new", &enc(Iv::new(x.inf, x.sup)))
            .raw("scal", &enc(Iv::from(x.inf)))
            .f("approx", x.approx())
            .f("conv", T::conv(x))
    });
    let e = Ev::new("conv").raw("x", &enc(x)).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
/// an interval as a number of the generic float interface
fn gfl<T: F>(c: &mut Ctx, x: Iv<T>) {
    let k = if c.rng.bool() { c.rng.int(-99999, 99999) } else { c.rng.u64() as i64 };
    let (g, h) = (rng::any::<f32>(&mut c.rng), rng::any::<f64>(&mut c.rng));
    let r = guard(|| {
        Ev::o()
            .raw("up", &enc(GFloat::next_up(x)))
            .raw("dn", &enc(GFloat::next_down(x)))
            .raw("i", &crate::scalar::enc_int(GFloat::to_i64(x) as i128))
            .f("f32", GFloat::to_f32(x))
            .f("f64", GFloat::to_f64(x))
            .raw("fi", &enc(<Iv<T> as GFloat>::from_i64(k)))
            .raw("ff32", &enc(<Iv<T> as GFloat>::from_f32(g)))
            .raw("ff64", &enc(<Iv<T> as GFloat>::from_f64(h)))
    });
    let e = Ev::new("gfl").raw("x", &enc(x)).raw("k", &crate::scalar::enc_int(k as i128)).f("g", g).f("h", h);
    let e = e.b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn limits<T: F>(c: &mut Ctx) {
    let r = guard(|| {
        Ev::o()
            .raw("low", &enc(Iv::<T>::lowest()))
            .raw("high", &enc(Iv::<T>::highest()))
            .raw("inf", &enc(<Iv<T> as GFloat>::infinity()))
            .raw("ninf", &enc(<Iv<T> as GFloat>::neg_infinity()))
            .raw("nzero", &enc(<Iv<T> as GFloat>::neg_zero()))
            .raw("minpos", &enc(<Iv<T> as GFloat>::min_positive_value()))
            .raw("half", &enc(<Iv<T> as GFloat>::half()))
            .raw("aeps", &enc(<Iv<T> as GFloat>::abs_epsilon()))
            .raw("reps", &enc(<Iv<T> as GFloat>::rel_epsilon()))
    });
    let e = Ev::new("limits").i("w", T::W as i64).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn consts<T: F>(c: &mut Ctx) {
    let r = guard(|| {
        Ev::o().raw("zero", &enc(Iv::<T>::zero())).raw("one", &enc(Iv::<T>::one())).raw("two", &enc(Iv::<T>::two()))
    });
    let e = Ev::new("consts").b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}

fn certain<T: Conv>(c: &mut Ctx, x: Iv<T>, y: Iv<T>) {
    let z = gen::<T>(&mut c.rng, false);
    for t in [y.inf, y.sup, z.inf] {
        cmp(c, x, y, t);
        query(c, x, t, z.sup);
    }
    cmp(c, x, x, x.inf);
    query(c, x, x.inf, x.sup);
    query(c, x, x.sup, y.sup);
    sets(c, x, y);
    sets(c, x, x);
    conv(c, x);
    gfl(c, x);
}

fn scaled<T: F>(r: &mut Rng, v: &[i64], f: T) -> Iv<T> {
    let z = |n: i64, r: &mut Rng| if n == 0 && r.bool() { T::neg_zero() } else { T::of(n as f64) * f };
    let a = z(v[0], r);
    let b = z(v[1], r);
    if a <= b { raw(a, b) } else { raw(b, a) }
}

/// scalar and single-point operands of note (halving, doubling, neighbours of one, the
/// limits of the format) on intervals of note (odd subnormals, limits, a few ulps)
fn notable<T: F>(c: &mut Ctx) {
    let o = T::one();
    let ulp = T::make(false, 1, 1 - T::MB as i32);
    let t = T::tiny();
    let least = T::make(false, 1, T::EMIN + T::MB as i32 - 1);
    let n = |k: f64| T::of(k);
    let sub = |m: u64| T::make(false, m, T::EMIN);
    let scalars = [
        n(0.5), n(2.0), n(0.25), n(4.0), n(3.0), n(10.0), n(1.0) / n(3.0), o, o + ulp, o - ulp * n(0.5), n(0.75),
        T::make(false, 1, -12), T::make(false, 1, 30), t, least, T::maxv(), n(0.0),
    ];
    let ivs = [
        (sub(3), sub(3)), (sub(1), sub(1)), (sub(3), sub(5)), (-sub(5), sub(3)), (n(0.0), sub(7)), (least - t, least + t),
        (T::maxv() * n(0.5) + T::maxv() * ulp, T::maxv()), (o - ulp, o + ulp), (o, o), (n(-3.0), n(-3.0)),
        (-o - ulp, n(0.0)), (n(1.0) / n(3.0), n(1.0) / n(3.0)), (sub(11), n(7.0)),
    ];
    let mut k = c.rng.below(2); // either sign of the scalar, alternating
    for s in scalars {
        for (a, b) in ivs {
            k += 1;
            if (k / 2) % c.shards != c.shard {
                continue;
            }
            let s = if k % 2 == 0 { s } else { -s };
            let mut m = Machine::<T>::new(c);
            let x = if c.rng.bool() { raw(a, b) } else { raw(-b, -a) };
            m.load(c, 0, x);
            m.load(c, 1, raw(s, s));
            for f in OPS {
                m.ops(c, f, 2, 0, s);
                m.op2(c, f, 2, 0, 1);
            }
            m.op2(c, "div", 2, 1, 0);
            m.op2(c, "mul", 3, 0, 0);
            let f = c.rng.pick(&OP1);
            m.op1(c, f, 2, 0);
        }
    }
}

pub fn run(c: &mut Ctx) {
    let certain_only = c.prop == "C03";
    consts::<f32>(c);
    consts::<f64>(c);
    if certain_only {
        limits::<f32>(c);
        limits::<f64>(c);
    } else {
        for _ in 0..2 {
            notable::<f32>(c);
            notable::<f64>(c);
        }
    }
    for j in c.scn.clone() {
        if j.has("m") {
            continue; // a scenario of the elementary functions
        }
        let (a, b) = (j.get("a").ints(), j.get("b").ints());
        for k in 0..2 {
            // positive scale factors keep the sign case; the second round uses full mantissas
            let fs = if k == 0 { (1.0f32, 1.0f32) } else {
                (absf(rng::mid::<f32>(&mut c.rng, 8)), absf(rng::mid::<f32>(&mut c.rng, 8)))
            };
            let fd = if k == 0 { (1.0f64, 1.0f64) } else {
                (absf(rng::mid::<f64>(&mut c.rng, 8)), absf(rng::mid::<f64>(&mut c.rng, 8)))
            };
            let (x, y) = (scaled(&mut c.rng, &a, fs.0), scaled(&mut c.rng, &b, fs.1));
            let (p, q) = (scaled(&mut c.rng, &a, fd.0), scaled(&mut c.rng, &b, fd.1));
            if certain_only {
                certain(c, x, y);
                certain(c, p, q);
            } else {
                sweep(c, x, y);
                sweep(c, p, q);
            }
        }
    }
    for _ in 0..c.count {
        if certain_only {
            let (x, y) = gen2::<f32>(&mut c.rng, true);
            certain(c, x, y);
            let (x, y) = gen2::<f64>(&mut c.rng, true);
            certain(c, x, y);
        } else {
            program::<f32>(c);
            program::<f64>(c);
            let (x, y) = gen2::<f32>(&mut c.rng, false);
            sweep(c, x, y);
            let (x, y) = gen2::<f64>(&mut c.rng, false);
            sweep(c, x, y);
        }
    }
}
