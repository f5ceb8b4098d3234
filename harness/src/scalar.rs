//! C06: scalar helpers of every type, classification, constants, conversions,
//! approximate equality of scalars and composites.
use crate::interval::{raw, Iv};
use crate::out::{guard, list, Ev};
use crate::rng::{self, Rng, F};
use crate::Ctx;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point2, Point3, Vector2, Vector3, Vector4};

/// any scalar type, with an exact encoding
pub trait S: Scalar + AlmostEqual + std::panic::RefUnwindSafe + 'static {
    const TY: &'static str;
    const SIGNED: bool;
    fn e(self) -> String;
    fn small(k: i64) -> Option<Self>;
    fn any(r: &mut Rng) -> Self;
}
pub fn enc_int(v: i128) -> String {
    let s = v.signum();
    let m = v.unsigned_abs();
    format!("[{},{},{}]", s, ((m >> 32) as u32) as i32, (m as u32) as i32)
}
macro_rules! int_s {
    ($t:ty, $n:expr, $s:expr) => {
        impl S for $t {
            const TY: &'static str = $n;
            const SIGNED: bool = $s;
            fn e(self) -> String {
                enc_int(self as i128)
            }
            fn small(k: i64) -> Option<Self> {
                <$t>::try_from(k).ok()
            }
            fn any(r: &mut Rng) -> Self {
                match r.below(8) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => <$t>::MIN + r.below(3) as $t,
                    3 => <$t>::MAX - r.below(3) as $t,
                    4 | 5 => {
                        let k = r.int(-9, 9);
                        <$t>::try_from(k).unwrap_or(r.below(5) as $t)
                    }
                    _ => r.u64() as $t,
                }
            }
        }
    };
}
int_s!(u8, "u8", false);
int_s!(u16, "u16", false);
int_s!(u32, "u32", false);
int_s!(u64, "u64", false);
int_s!(i8, "i8", true);
int_s!(i16, "i16", true);
int_s!(i32, "i32", true);
int_s!(i64, "i64", true);
macro_rules! flt_s {
    ($t:ty, $n:expr) => {
        impl S for $t {
            const TY: &'static str = $n;
            const SIGNED: bool = true;
            fn e(self) -> String {
                self.enc()
            }
            fn small(k: i64) -> Option<Self> {
                Some(k as $t)
            }
            fn any(r: &mut Rng) -> Self {
                rng::any::<$t>(r)
            }
        }
    };
}
flt_s!(f32, "f32");
flt_s!(f64, "f64");

fn lim<T: S>(c: &mut Ctx) {
    let r = guard(|| {
        Ev::o()
            .raw("zero", &T::zero().e())
            .raw("one", &T::one().e())
            .raw("two", &T::two().e())
            .raw("low", &T::lowest().e())
            .raw("high", &T::highest().e())
    });
    let e = Ev::new("lim").s("ty", T::TY).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn ord<T: S>(c: &mut Ctx, x: T, y: T, a: T, b: T) {
    // the range is put in order with the primitive comparison
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let r = guard(|| {
        let mm = Scalar::min_max(x, y);
        Ev::o()
            .raw("min", &Scalar::min(x, y).e())
            .raw("max", &Scalar::max(x, y).e())
            .raw("mm", &list([mm.0.e(), mm.1.e()].into_iter()))
            .raw("clamp", &Scalar::clamp(x, lo, hi).e())
            .b("inr", x.in_range(lo, hi))
            .b("iszero", x.is_zero())
            .b("isone", x.is_one())
            .b("aeq", x.almost_eq(y))
    });
    let e = Ev::new("ord")
        .s("ty", T::TY)
        .raw("x", &x.e())
        .raw("y", &y.e())
        .raw("lo", &lo.e())
        .raw("hi", &hi.e())
        .b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn sq<T: S>(c: &mut Ctx, x: T) {
    // integer squares that overflow are outside the statement
    let k = x.e();
    let r = guard(|| x.square());
    if r.is_none() && !T::TY.starts_with('f') {
        return;
    }
    let e = Ev::new("sq").s("ty", T::TY).raw("x", &k).b("panic", r.is_none());
    c.out.emit(match r {
        Some(v) => e.raw("o", &v.e()),
        None => e,
    });
}
fn sgn<T: S + SignedScalar>(c: &mut Ctx, x: T) {
    if !T::TY.starts_with('f') && x == T::lowest() {
        return; // |x| overflows
    }
    let r = guard(|| {
        Ev::o()
            .b("pos", SignedScalar::is_positive(x))
            .b("neg", SignedScalar::is_negative(x))
            .b("npos", x.is_nonpositive())
            .b("nneg", x.is_nonnegative())
            .raw("sig", &SignedScalar::signum(x).e())
            .raw("abs", &SignedScalar::abs(x).e())
    });
    let e = Ev::new("sgn").s("ty", T::TY).raw("x", &x.e()).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn cls<T: F>(c: &mut Ctx, x: T) {
    let r = guard(|| {
        Ev::o().b("nan", GFloat::is_nan(x)).b("fin", GFloat::is_finite(x)).b("inf", GFloat::is_infinite(x))
    });
    let e = Ev::new("cls").f("x", x).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn fcon<T: F>(c: &mut Ctx) {
    let r = guard(|| {
        Ev::o()
            .f("pi", T::pi())
            .f("tau", T::tau())
            .f("pi2", T::frac_pi_2())
            .f("pi4", T::frac_pi_4())
            .f("pil", T::pi_lower())
            .f("pih", T::pi_upper())
            .f("taul", T::tau_lower())
            .f("tauh", T::tau_upper())
            .f("pi2l", T::frac_pi_2_lower())
            .f("pi2h", T::frac_pi_2_upper())
            .f("pi4l", T::frac_pi_4_lower())
            .f("pi4h", T::frac_pi_4_upper())
            .f("half", T::half())
            .f("nan", T::nan())
            .f("inf", T::infinity())
            .f("ninf", T::neg_infinity())
            .f("nzero", T::neg_zero())
            .f("minpos", T::min_positive_value())
            .f("aeps", T::abs_epsilon())
            .f("reps", T::rel_epsilon())
    });
    let e = Ev::new("fcon").i("w", T::W as i64).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn cast<T: F>(c: &mut Ctx) {
    let x = match c.rng.below(6) {
        0 => T::of(c.rng.uni(-1e3, 1e3)),
        // powers of two and halves of integers, and the floats next to them
        1 | 2 => {
            let k = c.rng.int(0, 65) as i32;
            let v = match c.rng.below(3) {
                0 => T::make(false, 1, k),
                1 => T::make(false, 3, k - 1),
                _ => { let top = 1u64 << c.rng.int(0, 40); T::of(c.rng.below(top) as f64 + 0.5) }
            };
            let u = T::make(false, 1, -(T::MB as i32));
            let v = match c.rng.below(4) {
                0 => v * (T::one() + u + u),
                1 => v * (T::one() - u),
                _ => v,
            };
            if c.rng.bool() { v } else { -v }
        }
        3 => rng::mid::<T>(&mut c.rng, 66),
        _ => rng::any::<T>(&mut c.rng),
    };
    let k = match c.rng.below(3) {
        // halfway between two floats of either width, and next to it
        0 => {
            let b = if c.rng.bool() { 25 } else { 54 };
            let m = (1i64 << (b - 1)) | (c.rng.u64() as i64 & ((1i64 << (b - 1)) - 1)) | 1;
            let s = c.rng.below(64 - b) as u32;
            let d = if c.rng.bool() { c.rng.int(-1, 1) } else { c.rng.int(-600, 600) };
            let v = (m << s).saturating_add(d);
            if c.rng.bool() { v } else { -v }
        }
        _ => <i64 as S>::any(&mut c.rng),
    };
    let g = rng::any::<f32>(&mut c.rng);
    let h = match c.rng.below(3) {
        // halfway between two 32-bit floats, and next to it
        0 => {
            let m = (1u64 << 24) | (c.rng.u64() & ((1 << 24) - 1)) | 1;
            let v = (m as f64) * 2f64.powi(c.rng.int(-160, 110) as i32);
            f64::from_bits((v.to_bits() as i64 + c.rng.int(-1, 1)) as u64)
        }
        _ => rng::any::<f64>(&mut c.rng),
    };
    let r = guard(|| {
        Ev::o()
            .raw("i", &enc_int(x.to_i64() as i128))
            .f("f32", x.to_f32())
            .f("f64", x.to_f64())
            .f("fi", T::from_i64(k))
            .f("ff32", T::from_f32(g))
            .f("ff64", T::from_f64(h))
    });
    let e = Ev::new("cast")
        .i("w", T::W as i64)
        .f("x", x)
        .raw("k", &enc_int(k as i128))
        .f("g", g)
        .f("h", h)
        .b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn close<T: F + AlmostEqual>(c: &mut Ctx, x: T, y: T) {
    let r = guard(|| Ev::o().b("xy", x.fequals(y)).b("yx", y.fequals(x)).b("ae", x.almost_eq(y)));
    let e = Ev::new("close").f("x", x).f("y", y).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
/// a pair around a tolerance threshold
fn near_pair<T: F>(r: &mut Rng) -> (T, T) {
    let rel = if T::W == 32 { 1e-4 } else { 1e-6 };
    let x = match r.below(4) {
        0 => r.uni(-1.0, 1.0) * 10f64.powi(r.int(-8, 8) as i32),
        1 => r.uni(-0.02, 0.02),
        2 => r.uni(-3.0, 3.0),
        _ => 0.0,
    };
    let f = match r.below(6) {
        0 => 1.0,
        1 => 0.5,
        2 => 2.0,
        3 => 0.99,
        4 => 1.01,
        _ => r.uni(0.0, 3.0),
    };
    let d = f * if r.bool() { 1e-6f64.max(rel * x.abs()) } else if r.bool() { 1e-6 } else { rel * x.abs() };
    let y = if r.bool() { x + d } else { x - d };
    let (x, y) = if r.chance(1, 12) { (x, -y) } else { (x, y) };
    (T::of(x), T::of(y))
}
fn comp<T: F + AlmostEqual>(c: &mut Ctx, what: &str, parts: Vec<bool>, got: Option<bool>) {
    let e = Ev::new("comp")
        .i("w", T::W as i64)
        .s("what", what)
        .raw("c", &list(parts.iter().map(|b| b.to_string())))
        .b("panic", got.is_none());
    c.out.emit(match got {
        Some(b) => e.sub("o", Ev::o().b("r", b)),
        None => e,
    });
}
/// n component pairs, mostly close, with at most a few far ones
fn pairs<T: F>(r: &mut Rng, n: usize) -> (Vec<T>, Vec<T>) {
    let mut a = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let x = T::of(r.uni(-4.0, 4.0));
        a.push(x);
        b.push(if r.chance(1, 3) { x } else { x * T::of(1.0 + r.uni(-5e-7, 5e-7)) });
    }
    if r.chance(3, 4) {
        let k = r.below(n as u64) as usize;
        let f = r.pick(&[1.5, 3e-3, -2.0]);
        b[k] = a[k] + T::of(f);
    }
    (a, b)
}
fn composites<T: F + AlmostEqual>(c: &mut Ctx) {
    macro_rules! vec_case {
        ($n:expr, $name:expr, $t:ty) => {{
            let (a, b) = pairs::<T>(&mut c.rng, $n);
            let parts: Vec<bool> = (0..$n).map(|i| a[i].fequals(b[i])).collect();
            let mut x = [T::zero(); $n];
            x.copy_from_slice(&a);
            let mut y = [T::zero(); $n];
            y.copy_from_slice(&b);
            let g = guard(|| <$t>::from(x).almost_eq(<$t>::from(y)));
            comp::<T>(c, $name, parts, g);
        }};
    }
    vec_case!(2, "v2", Vector2<T>);
    vec_case!(3, "v3", Vector3<T>);
    vec_case!(4, "v4", Vector4<T>);
    vec_case!(2, "p2", Point2<T>);
    vec_case!(3, "p3", Point3<T>);
    vec_case!(3, "n3", Normal3<T>);
    // interval with interval
    let (a, b) = pairs::<T>(&mut c.rng, 2);
    let (x, y): (Iv<T>, Iv<T>) = (raw(a[0], a[1]), raw(b[0], b[1]));
    let parts = vec![a[0].fequals(b[0]), a[1].fequals(b[1])];
    let g = guard(|| AlmostEqual::<Iv<T>>::almost_eq(x, y));
    comp::<T>(c, "iv", parts, g);
    // interval with scalar: a member close to both bounds
    let t = T::of(c.rng.uni(-4.0, 4.0));
    let near = |r: &mut Rng| T::of(t.d() * (1.0 + r.pick(&[0.0, 1e-8, 3e-7, -1e-8, -3e-7, 0.1, -0.1])));
    let (p, q) = (near(&mut c.rng), near(&mut c.rng));
    let x: Iv<T> = if p <= q { raw(p, q) } else { raw(q, p) };
    let parts = vec![x.inf <= t && t <= x.sup, x.inf.fequals(t), x.sup.fequals(t)];
    let g = guard(|| AlmostEqual::<T>::almost_eq(x, t));
    comp::<T>(c, "ivs", parts, g);
    // matrices and transforms
    let m = |v: &[T]| {
        let mut d = [[T::zero(); 4]; 4];
        for i in 0..16 {
            d[i / 4][i % 4] = v[i];
        }
        Matrix4x4::from(d)
    };
    let (a, b) = pairs::<T>(&mut c.rng, 16);
    let parts: Vec<bool> = (0..16).map(|i| a[i].fequals(b[i])).collect();
    let g = guard(|| m(&a).almost_eq(m(&b)));
    comp::<T>(c, "m4", parts, g);
    let (a, b) = pairs::<T>(&mut c.rng, 32);
    let parts: Vec<bool> = (0..32).map(|i| a[i].fequals(b[i])).collect();
    let g = guard(|| {
        Transform::new(m(&a[..16]), m(&a[16..])).almost_eq(Transform::new(m(&b[..16]), m(&b[16..])))
    });
    comp::<T>(c, "xf", parts, g);
}
fn ords<T: S>(c: &mut Ctx) {
    let r = &mut c.rng;
    let x = T::any(r);
    let y = if r.chance(1, 5) { x } else { T::any(r) };
    let a = if r.chance(1, 5) { x } else { T::any(r) };
    let b = if r.chance(1, 5) { x } else { T::any(r) };
    ord(c, x, y, a, b);
    sq(c, x);
}
fn scn<T: S>(c: &mut Ctx, v: &[i64; 4]) {
    if let (Some(x), Some(y), Some(a), Some(b)) = (T::small(v[0]), T::small(v[1]), T::small(v[2]), T::small(v[3])) {
        ord(c, x, y, a, b);
        if v[1] == v[2] && v[2] == v[3] {
            sq(c, x);
        }
    }
}
pub fn run(c: &mut Ctx) {
    macro_rules! each {
        ($f:ident $(, $a:expr)*) => {{
            $f::<u8>(c $(, $a)*); $f::<u16>(c $(, $a)*); $f::<u32>(c $(, $a)*); $f::<u64>(c $(, $a)*);
            $f::<i8>(c $(, $a)*); $f::<i16>(c $(, $a)*); $f::<i32>(c $(, $a)*); $f::<i64>(c $(, $a)*);
            $f::<f32>(c $(, $a)*); $f::<f64>(c $(, $a)*);
        }};
    }
    each!(lim);
    fcon::<f32>(c);
    fcon::<f64>(c);
    for w in [f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1.0] {
        cls(c, w);
        cls(c, w as f64);
    }
    for b in [0x7f800001u32, 0xff800001, 0x7fc00000, 1, 0x80000001, 0x7f7fffff] {
        cls(c, f32::from_bits(b));
    }
    for b in [0x7ff0000000000001u64, 0xfff0000000000001, 1, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000] {
        cls(c, f64::from_bits(b));
    }
    for j in c.scn.clone() {
        let v = [j.get("x").int(), j.get("y").int(), j.get("lo").int(), j.get("hi").int()];
        each!(scn, &v);
        if v[1] == v[2] {
            sgn(c, v[0] as i8);
            sgn(c, v[0] as i16);
            sgn(c, v[0] as i32);
            sgn(c, v[0] as i64);
            sgn(c, v[0] as f32);
            sgn(c, v[0] as f64);
            close(c, v[0] as f32, v[1] as f32);
            close(c, v[0] as f64, v[1] as f64);
        }
    }
    for _ in 0..c.count {
        each!(ords);
        macro_rules! sg {
            ($($t:ty)*) => {$({ let x = <$t as S>::any(&mut c.rng); sgn(c, x); })*};
        }
        sg!(i8 i16 i32 i64 f32 f64);
        cast::<f32>(c);
        cast::<f64>(c);
        for _ in 0..3 {
            let (x, y) = near_pair::<f32>(&mut c.rng);
            close(c, x, y);
            let (x, y) = near_pair::<f64>(&mut c.rng);
            close(c, x, y);
        }
        let (x, y) = (rng::mid::<f32>(&mut c.rng, 30), rng::mid::<f32>(&mut c.rng, 30));
        close(c, x, y);
        let b = c.rng.u64();
        cls(c, f32::from_bits(b as u32));
        cls(c, f64::from_bits(b));
        composites::<f32>(c);
        composites::<f64>(c);
    }
}
