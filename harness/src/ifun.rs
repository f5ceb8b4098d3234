//! C02 (and part of C04): elementary functions of intervals.
use crate::interval::{absf, enc, gen, raw, Iv};
use crate::out::{guard, Ev};
use crate::rng::{self, F};
use crate::Ctx;
use scarlet::math::scalar::GFloat;

fn fun<T: F>(c: &mut Ctx, f: &str, x: Iv<T>) {
    let r = guard(|| match f {
        "sin" => GFloat::sin(x),
        "cos" => GFloat::cos(x),
        "tan" => GFloat::tan(x),
        "asin" => GFloat::asin(x),
        "acos" => GFloat::acos(x),
        "atan" => GFloat::atan(x),
        _ => unreachable!(),
    });
    let e = Ev::new("fun").s("f", f).raw("x", &enc(x)).b("panic", r.is_none());
    c.out.emit(match r {
        Some(v) => e.raw("o", &enc(v)),
        None => e,
    });
}
fn sc<T: F>(c: &mut Ctx, x: Iv<T>) {
    let r = guard(|| GFloat::sin_cos(x));
    let e = Ev::new("sc").raw("x", &enc(x)).b("panic", r.is_none());
    c.out.emit(match r {
        Some((s, k)) => e.sub("o", Ev::o().raw("s", &enc(s)).raw("c", &enc(k))),
        None => e,
    });
}
fn atan2<T: F>(c: &mut Ctx, y: Iv<T>, x: Iv<T>) {
    let r = guard(|| GFloat::atan2(y, x));
    let e = Ev::new("atan2").raw("y", &enc(y)).raw("x", &enc(x)).b("panic", r.is_none());
    c.out.emit(match r {
        Some(v) => e.raw("o", &enc(v)),
        None => e,
    });
}
fn consts<T: F>(c: &mut Ctx) {
    let r = guard(|| {
        Ev::o()
            .raw("pi", &enc(Iv::<T>::pi()))
            .raw("tau", &enc(Iv::<T>::tau()))
            .raw("pi2", &enc(Iv::<T>::frac_pi_2()))
            .raw("pi4", &enc(Iv::<T>::frac_pi_4()))
    });
    let e = Ev::new("const").i("w", T::W as i64).b("panic", r.is_none());
    c.out.emit(match r {
        Some(o) => e.sub("o", o),
        None => e,
    });
}
fn ulps<T: F>(x: T, k: i64) -> T {
    // k representable steps away (away from zero and the extremes)
    let d = absf(x) * T::make(false, 1, 1 - T::MB as i32);
    x + d * T::of(k as f64)
}
/// an angle: multiples of pi/2 and their neighbours, ordinary ones, huge ones
fn angle<T: F>(c: &mut Ctx) -> T {
    let r = &mut c.rng;
    match r.below(10) {
        0 | 1 | 2 => {
            let k = r.int(-9, 9) as f64;
            let x = T::of(k * std::f64::consts::FRAC_PI_2);
            let s = r.int(-2, 2);
            ulps(x, s)
        }
        3 => T::of(0.0),
        4 => rng::any::<T>(r),
        5 => rng::mid::<T>(r, 40),
        6 => {
            let k = r.int(-20000, 20000) as f64;
            T::of(k * std::f64::consts::FRAC_PI_2)
        }
        _ => T::of(r.uni(-10.0, 10.0)),
    }
}
fn wide<T: F>(c: &mut Ctx) -> Iv<T> {
    let a = angle::<T>(c);
    let r = &mut c.rng;
    let pi = std::f64::consts::PI;
    let w = match r.below(9) {
        0 => 0.0,
        1 => 1e-6,
        2 => r.uni(0.0, pi),
        3 => r.uni(pi, 2.0 * pi),
        4 => pi,
        5 => 2.0 * pi,
        6 => r.uni(2.0 * pi, 20.0),
        7 => r.uni(0.0, 0.3),
        _ => pi / 2.0,
    };
    let b = if r.chance(1, 6) { angle::<T>(c) } else { T::of(a.d() + w) };
    let s = c.rng.int(-2, 2);
    let b = if c.rng.chance(1, 3) { ulps(b, s) } else { b };
    if a <= b { raw(a, b) } else { raw(b, a) }
}
fn unit<T: F>(c: &mut Ctx) -> T {
    let r = &mut c.rng;
    match r.below(8) {
        0 => T::of(1.0),
        1 => T::of(-1.0),
        2 => T::of(0.0),
        3 => T::of(0.5) * T::of(if r.bool() { 1.0 } else { -1.0 }),
        4 => T::of(1.0) - T::make(false, r.below(40), -(T::MB as i32)),
        5 => T::make(false, r.below(40), -(T::MB as i32)) - T::of(1.0),
        6 => {
            let x = rng::any::<T>(r);
            if absf(x).d() <= 1.0 { x } else { T::of(0.25) }
        }
        _ => T::of(r.uni(-1.0, 1.0)),
    }
}
fn cases<T: F>(c: &mut Ctx) {
    let p = angle::<T>(c);
    let p = raw(p, p);
    for f in ["sin", "cos", "tan"] {
        fun(c, f, p);
        let x = wide::<T>(c);
        fun(c, f, x);
    }
    let x = wide::<T>(c);
    sc(c, x);
    for f in ["asin", "acos"] {
        let a = unit::<T>(c);
        fun(c, f, raw(a, a));
        let b = unit::<T>(c);
        fun(c, f, if a <= b { raw(a, b) } else { raw(b, a) });
    }
    let a = rng::any::<T>(&mut c.rng);
    fun(c, "atan", raw(a, a));
    let v = gen::<T>(&mut c.rng, false);
    fun(c, "atan", v);
    // atan2: points, axis points, boxes
    let (y, x) = (rng::any::<T>(&mut c.rng), rng::any::<T>(&mut c.rng));
    atan2(c, raw(y, y), raw(x, x));
    let (y, x) = (T::of(c.rng.uni(-9.0, 9.0)), T::of(c.rng.uni(-9.0, 9.0)));
    atan2(c, raw(y, y), raw(x, x));
    let z = T::of(0.0);
    atan2(c, raw(z, z), raw(x, x));
    atan2(c, raw(y, y), raw(z, z));
    let (y, x) = (gen::<T>(&mut c.rng, false), gen::<T>(&mut c.rng, false));
    atan2(c, y, x);
    let (y, x) = (gen::<T>(&mut c.rng, false), gen::<T>(&mut c.rng, false));
    atan2(c, y, x);
}
fn scaled<T: F>(v: &[i64], f: T) -> Iv<T> {
    let a = T::of(v[0] as f64) * f;
    let b = T::of(v[1] as f64) * f;
    raw(a, b)
}
/// C24: the scalar functions
fn sfun<T: F>(c: &mut Ctx, f: &str, x: T) {
    let r = guard(|| match f {
        "sin" => GFloat::sin(x),
        "cos" => GFloat::cos(x),
        "tan" => GFloat::tan(x),
        "asin" => GFloat::asin(x),
        "acos" => GFloat::acos(x),
        "atan" => GFloat::atan(x),
        "sqrt" => GFloat::sqrt(x),
        "recip" => GFloat::recip(x),
        _ => unreachable!(),
    });
    let e = Ev::new("sf").s("f", f).f("x", x).b("panic", r.is_none());
    c.out.emit(match r {
        Some(v) => e.f("o", v),
        None => e,
    });
}
fn ssc<T: F>(c: &mut Ctx, x: T) {
    let r = guard(|| GFloat::sin_cos(x));
    let e = Ev::new("ssc").f("x", x).b("panic", r.is_none());
    c.out.emit(match r {
        Some((s, k)) => e.sub("o", Ev::o().f("s", s).f("c", k)),
        None => e,
    });
}
fn satan2<T: F>(c: &mut Ctx, y: T, x: T) {
    let r = guard(|| GFloat::atan2(y, x));
    let e = Ev::new("sa2").f("y", y).f("x", x).b("panic", r.is_none());
    c.out.emit(match r {
        Some(v) => e.f("o", v),
        None => e,
    });
}
fn scalars<T: F>(c: &mut Ctx) {
    for f in ["sin", "cos", "tan"] {
        let x = angle::<T>(c);
        sfun(c, f, x);
    }
    let x = angle::<T>(c);
    ssc(c, x);
    for f in ["asin", "acos"] {
        let x = unit::<T>(c);
        sfun(c, f, x);
    }
    for f in ["atan", "sqrt", "recip"] {
        for k in 0..2 {
            let x = if k == 0 { rng::any::<T>(&mut c.rng) } else { T::of(c.rng.uni(-9.0, 9.0)) };
            sfun(c, f, if f == "sqrt" { absf(x) } else { x });
        }
    }
    let n = c.rng.int(1, 4000) as f64;
    sfun(c, "sqrt", T::of(n * n));
    let (y, x) = (rng::any::<T>(&mut c.rng), rng::any::<T>(&mut c.rng));
    satan2(c, y, x);
    let (y, x) = (T::of(c.rng.uni(-9.0, 9.0)), T::of(c.rng.uni(-9.0, 9.0)));
    satan2(c, y, x);
    satan2(c, y, T::of(0.0));
    satan2(c, y, -T::of(0.0));
    satan2(c, T::of(0.0), x);
    satan2(c, -T::of(0.0), x);
}
fn scalar_run(c: &mut Ctx) {
    for f in ["atan", "sqrt", "recip"] {
        sfun(c, f, f32::INFINITY);
        sfun(c, f, f64::INFINITY);
    }
    for f in ["atan", "recip"] {
        sfun(c, f, f32::NEG_INFINITY);
        sfun(c, f, f64::NEG_INFINITY);
    }
    for f in ["sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "recip"] {
        for x in [0.0, -0.0, 1.0, -1.0, 0.5] {
            if f != "sqrt" || x >= 0.0 {
                sfun(c, f, x);
                sfun(c, f, x as f32);
            }
        }
    }
    for j in c.scn.clone() {
        if !j.has("m") {
            continue;
        }
        let (a, b) = (j.get("a").ints(), j.get("b").ints());
        if j.get("m").str() == "atan2" {
            // the members of the box that the model looks at
            for y in [a[0], a[1]] {
                for x in [b[0], b[1]] {
                    let (f, g) = (c.rng.uni(0.1, 9.0), c.rng.uni(0.1, 9.0));
                    if c.rng.bool() {
                        satan2(c, y as f64 * f, x as f64 * g);
                    } else {
                        satan2(c, (y as f64 * f) as f32, (x as f64 * g) as f32);
                    }
                }
            }
        } else {
            let p = j.get("P").int() as f64;
            let x = ((a[0] + b[0]) as f64 / p + c.rng.int(-2, 2) as f64) * std::f64::consts::TAU;
            for f in ["sin", "cos", "tan"] {
                sfun(c, f, x);
                sfun(c, f, x as f32);
            }
        }
    }
    for _ in 0..c.count {
        scalars::<f32>(c);
        scalars::<f64>(c);
    }
}
pub fn run(c: &mut Ctx) {
    if c.prop == "C24" {
        return scalar_run(c);
    }
    consts::<f32>(c);
    consts::<f64>(c);
    for j in c.scn.clone() {
        if !j.has("m") {
            continue;
        }
        let (a, b) = (j.get("a").ints(), j.get("b").ints());
        if j.get("m").str() == "atan2" {
            for k in 0..2 {
                let (f, g) = if k == 0 { (1.0, 1.0) } else { (c.rng.uni(0.1, 9.0), c.rng.uni(0.1, 9.0)) };
                atan2(c, scaled::<f32>(&a, f as f32), scaled::<f32>(&b, g as f32));
                atan2(c, scaled::<f64>(&a, f), scaled::<f64>(&b, g));
            }
        } else {
            let p = j.get("P").int() as f64;
            for k in [-1.0, 0.0, 3.0] {
                let x = (a[0] as f64 / p + k) * std::f64::consts::TAU;
                let y = x + (b[0] as f64 / p) * std::f64::consts::TAU;
                for f in ["sin", "cos", "tan"] {
                    fun(c, f, raw(x, y));
                    fun(c, f, raw(x as f32, y as f32));
                }
            }
        }
    }
    for _ in 0..c.count {
        cases::<f32>(c);
        cases::<f64>(c);
    }
}
