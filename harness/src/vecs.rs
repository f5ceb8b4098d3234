//! C07: vector, point and normal algebra over integers and floats.
use crate::out::{guard, list, Ev};
use crate::rng::{self, Rng, F};
use crate::scalar::S;
use crate::Ctx;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};
use scarlet::math::vector::{GenericVector, InnerProduct, Norm, Normal, Point, Vector};

pub trait Num: S {
    const FLOAT: bool;
    /// operands: `k` 0 any value of the type (component operations only), 1 moderate
    fn gen(r: &mut Rng, k: u8) -> Self;
}
macro_rules! num_f {
    ($t:ty) => {
        impl Num for $t {
            const FLOAT: bool = true;
            fn gen(r: &mut Rng, k: u8) -> Self {
                if k == 0 {
                    return rng::any::<$t>(r);
                }
                match r.below(8) {
                    0 => 0.0,
                    1 | 2 => rng::simple::<$t>(r),
                    3 => rng::mid::<$t>(r, 24),
                    _ => rng::mid::<$t>(r, 5),
                }
            }
        }
    };
}
num_f!(f32);
num_f!(f64);
macro_rules! num_i {
    ($t:ty, $lo:expr, $hi:expr) => {
        impl Num for $t {
            const FLOAT: bool = false;
            fn gen(r: &mut Rng, _k: u8) -> Self {
                if r.bool() { r.int(if $lo < 0 { -3 } else { 0 }, 3) as $t } else { r.int($lo, $hi) as $t }
            }
        }
    };
}
num_i!(i32, -9000, 9000);
num_i!(i64, -900000000, 900000000);
num_i!(u32, 0, 9000);

pub fn encs<T: S>(v: &[T]) -> String {
    list(v.iter().map(|x| x.e()))
}
struct Case<'a, T: S> {
    k: &'a str,
    f: &'a str,
    a: &'a [T],
    b: Option<&'a [T]>,
    s: Option<T>,
    i: Option<usize>,
}
fn emit<T: S>(c: &mut Ctx, q: Case<T>, o: Option<String>) {
    let mut e = Ev::new(q.f_kind()).s("k", q.k).s("ty", T::TY).s("f", q.f).raw("a", &encs(q.a));
    if let Some(b) = q.b {
        e = e.raw("b", &encs(b));
    }
    if let Some(s) = q.s {
        e = e.raw("s", &s.e());
    }
    if let Some(i) = q.i {
        e = e.i("i", i as i64);
    }
    e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
impl<'a, T: S> Case<'a, T> {
    fn f_kind(&self) -> &'static str {
        match self.f {
            "dot" | "sqn" | "sqd" | "norm" | "dist" | "cross" | "unit" => "metric",
            "id" | "named" | "idx" | "conv" | "clone" | "set" | "default" | "eq" => "access",
            _ => "elem",
        }
    }
}
fn un<'a, T: S>(k: &'a str, f: &'a str, a: &'a [T]) -> Case<'a, T> {
    Case { k, f, a, b: None, s: None, i: None }
}
fn bi<'a, T: S>(k: &'a str, f: &'a str, a: &'a [T], b: &'a [T]) -> Case<'a, T> {
    Case { k, f, a, b: Some(b), s: None, i: None }
}
fn sc<'a, T: S>(k: &'a str, f: &'a str, a: &'a [T], s: T) -> Case<'a, T> {
    Case { k, f, a, b: None, s: Some(s), i: None }
}

fn v<T: S, const N: usize, U>(x: GenericVector<T, N, U>) -> Option<String> {
    Some(encs(&x.vec))
}
/// operations of every kind of vector
fn common<T: Num, const N: usize, U: Copy + 'static>(c: &mut Ctx, k: &str, a: [T; N], b: [T; N], s: T)
where
    GenericVector<T, N, U>: From<[T; N]>,
{
    type G<T, const N: usize, U> = GenericVector<T, N, U>;
    let (x, y) = (G::<T, N, U>::from(a), G::<T, N, U>::from(b));
    let o = guard(|| x + y).and_then(v);
    emit(c, bi(k, "add", &a, &b), o);
    let o = guard(|| {
        let mut z = x;
        z += y;
        z
    })
    .and_then(v);
    emit(c, bi(k, "adda", &a, &b), o);
    let o = guard(|| x * y).and_then(v);
    emit(c, bi(k, "mul", &a, &b), o);
    if b.iter().all(|t| *t != T::zero()) {
        let o = guard(|| x / y).and_then(v);
        emit(c, bi(k, "div", &a, &b), o);
    }
    let o = guard(|| x * s).and_then(v);
    emit(c, sc(k, "muls", &a, s), o);
    if s != T::zero() {
        let o = guard(|| x / s).and_then(v);
        emit(c, sc(k, "divs", &a, s), o);
    }
    let o = guard(|| x.min(y)).and_then(v);
    emit(c, bi(k, "min", &a, &b), o);
    let o = guard(|| x.max(y)).and_then(v);
    emit(c, bi(k, "max", &a, &b), o);
    // access
    emit(c, un(k, "id", &a), v(x));
    let o = guard(|| {
        let mut t = vec![x.x(), x.y()];
        if N > 2 {
            t.push(x.z());
        }
        if N > 3 {
            t.push(x.w());
        }
        encs(&t)
    });
    emit(c, un(k, "named", &a), o);
    let o = guard(|| encs(&(0..N).map(|i| x[i]).collect::<Vec<T>>()));
    emit(c, un(k, "idx", &a), o);
    let o = guard(|| G::<T, N, U>::clone(&x)).and_then(v);
    emit(c, un(k, "clone", &a), o);
    let i = c.rng.below(N as u64) as usize;
    let o = guard(|| {
        let mut z = x;
        z[i] = s;
        z
    })
    .and_then(v);
    emit(c, Case { k, f: "set", a: &a, b: None, s: Some(s), i: Some(i) }, o);
    let o = guard(|| {
        let mut z = x;
        match i {
            0 => *z.x_mut() = s,
            1 => *z.y_mut() = s,
            2 => *z.z_mut() = s,
            _ => *z.w_mut() = s,
        }
        z
    })
    .and_then(v);
    emit(c, Case { k, f: "set", a: &a, b: None, s: Some(s), i: Some(i) }, o);
    let o = guard(|| G::<T, N, U>::default()).and_then(v);
    emit(c, un(k, "default", &a), o);
    let b2 = match c.rng.below(3) {
        0 => a,
        1 => {
            let mut t = a;
            t[i] = s;
            t
        }
        _ => b,
    };
    let o = guard(|| (x == G::<T, N, U>::from(b2)).to_string());
    emit(c, bi(k, "eq", &a, &b2), o);
}
fn signed<T: Num + SignedScalar, const N: usize, U: Copy + 'static>(c: &mut Ctx, k: &str, a: [T; N], b: [T; N]) {
    let (x, y) = (GenericVector::<T, N, U>::from(a), GenericVector::<T, N, U>::from(b));
    let o = guard(|| -x).and_then(v);
    emit(c, un(k, "neg", &a), o);
    let o = guard(|| x.dot(y).e());
    emit(c, bi(k, "dot", &a, &b), o);
    let o = guard(|| InnerProduct::dot(x, Vector::<T, N>::from(b)).e());
    emit(c, bi(k, "dot", &a, &b), o);
    let o = guard(|| x.dot(Normal::<T, N>::from(b)).e());
    emit(c, bi(k, "dot", &a, &b), o);
    let o = guard(|| x.square_norm().e());
    emit(c, un(k, "sqn", &a), o);
    let o = guard(|| Norm::square_norm(x).e());
    emit(c, un(k, "sqn", &a), o);
}
/// what only vectors and points offer
fn vp<T: Num, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N]) {
    let (x, y) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let (p, q) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
    // unsigned differences must not underflow
    if T::SIGNED || (0..N).all(|i| a[i] >= b[i]) {
        let o = guard(|| x - y).and_then(v);
        emit(c, bi("v", "sub", &a, &b), o);
        let o = guard(|| {
            let mut z = x;
            z -= y;
            z
        })
        .and_then(v);
        emit(c, bi("v", "suba", &a, &b), o);
        let o = guard(|| -> Vector<T, N> { p - q }).and_then(v);
        emit(c, bi("p", "pp", &a, &b), o);
        let o = guard(|| -> Point<T, N> { p - y }).and_then(v);
        emit(c, bi("p", "pmv", &a, &b), o);
    }
    let o = guard(|| -> Point<T, N> { p + y }).and_then(v);
    emit(c, bi("p", "pv", &a, &b), o);
    let o = guard(|| -> Point<T, N> { x + q }).and_then(v);
    emit(c, bi("p", "vp", &a, &b), o);
    let o = guard(|| Normal::<T, N>::from(x)).and_then(v);
    emit(c, un("v", "conv", &a), o);
    let o = guard(|| Point::<T, N>::from(x)).and_then(v);
    emit(c, un("v", "conv", &a), o);
    let o = guard(|| Vector::<T, N>::from(p)).and_then(v);
    emit(c, un("p", "conv", &a), o);
    let o = guard(|| Vector::<T, N>::from(Normal::<T, N>::from(a))).and_then(v);
    emit(c, un("n", "conv", &a), o);
}
fn vmetric<T: Num + SignedScalar, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N]) {
    let (x, y) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let o = guard(|| x.square_distance(y).e());
    emit(c, bi("v", "sqd", &a, &b), o);
    let o = guard(|| Norm::square_distance(x, y).e());
    emit(c, bi("v", "sqd", &a, &b), o);
}
fn fmetric<T: Num + F, const N: usize, U: Copy + 'static>(c: &mut Ctx, k: &str, a: [T; N]) {
    let x = GenericVector::<T, N, U>::from(a);
    let o = guard(|| x.norm().e());
    emit(c, un(k, "norm", &a), o);
    let o = guard(|| Norm::norm(x).e());
    emit(c, un(k, "norm", &a), o);
    if a.iter().any(|t| *t != T::zero()) {
        let o = guard(|| x.normalize()).and_then(v);
        emit(c, un(k, "unit", &a), o);
        let o = guard(|| Norm::normalize(x)).and_then(v);
        emit(c, un(k, "unit", &a), o);
    }
}
fn fdist<T: Num + F, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N]) {
    let (x, y) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let o = guard(|| x.distance(y).e());
    emit(c, bi("v", "dist", &a, &b), o);
    let o = guard(|| Norm::distance(x, y).e());
    emit(c, bi("v", "dist", &a, &b), o);
}
fn cross<T: Num>(c: &mut Ctx, a: [T; 3], b: [T; 3]) {
    let o = guard(|| Vector::<T, 3>::from(a).cross(Vector::<T, 3>::from(b))).and_then(v);
    emit(c, bi("v", "cross", &a, &b), o);
    let o = guard(|| Normal::<T, 3>::from(a).cross(Normal::<T, 3>::from(b))).and_then(v);
    emit(c, bi("n", "cross", &a, &b), o);
}
use scarlet::math::vector::{NormalMarker as NM, PointMarker as PM, VectorMarker as VM};

fn news<T: Num>(c: &mut Ctx, s: [T; 4]) {
    use scarlet::math::vector::{Normal3, Point2, Point3, Vector2, Vector3, Vector4};
    let o = guard(|| Vector2::new(s[0], s[1])).and_then(v);
    emit(c, un("v", "id", &s[..2]), o);
    let o = guard(|| Point2::new(s[0], s[1])).and_then(v);
    emit(c, un("p", "id", &s[..2]), o);
    let o = guard(|| Vector3::new(s[0], s[1], s[2])).and_then(v);
    emit(c, un("v", "id", &s[..3]), o);
    let o = guard(|| Point3::new(s[0], s[1], s[2])).and_then(v);
    emit(c, un("p", "id", &s[..3]), o);
    let o = guard(|| Normal3::new(s[0], s[1], s[2])).and_then(v);
    emit(c, un("n", "id", &s[..3]), o);
    let o = guard(|| Vector4::new(s[0], s[1], s[2], s[3])).and_then(v);
    emit(c, un("v", "id", &s[..4]), o);
}
fn arr<T: Num, const N: usize>(c: &mut Ctx, k: u8) -> [T; N] {
    let mut a = [T::zero(); N];
    for x in a.iter_mut() {
        *x = T::gen(&mut c.rng, k);
    }
    a
}
fn all_n<T: Num, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N], s: T) {
    common::<T, N, VM>(c, "v", a, b, s);
    common::<T, N, PM>(c, "p", a, b, s);
    common::<T, N, NM>(c, "n", a, b, s);
    vp::<T, N>(c, a, b);
}
fn signed_n<T: Num + SignedScalar, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N]) {
    signed::<T, N, VM>(c, "v", a, b);
    signed::<T, N, PM>(c, "p", a, b);
    signed::<T, N, NM>(c, "n", a, b);
    vmetric::<T, N>(c, a, b);
}
fn float_n<T: Num + F, const N: usize>(c: &mut Ctx, a: [T; N], b: [T; N]) {
    fmetric::<T, N, VM>(c, "v", a);
    fmetric::<T, N, PM>(c, "p", a);
    fmetric::<T, N, NM>(c, "n", a);
    fdist::<T, N>(c, a, b);
}
/// moderate vectors brought to one scale: up to where the squares are about to overflow, down
/// to where they underflow
fn scaled<T: Num + F, const N: usize>(c: &mut Ctx) -> ([T; N], [T; N]) {
    let half = T::EMIN as i64 / 2;
    let top = (-(T::EMIN as i64) - T::MB as i64) / 2 - 8;
    let k = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.int(half + 3, half + T::MB as i64 / 2 + 3),
        _ => c.rng.int(half + 3, top),
    };
    let q = T::make(false, 1, k as i32);
    let f = |c: &mut Ctx| {
        let mut a = [T::zero(); N];
        for x in a.iter_mut() {
            *x = match c.rng.below(6) {
                0 => T::zero(),
                1 => rng::simple::<T>(&mut c.rng) * q,
                _ => rng::mid::<T>(&mut c.rng, 3) * q,
            };
        }
        // one component well above the underflow of squares
        let i = c.rng.below(N as u64) as usize;
        a[i] = rng::mid::<T>(&mut c.rng, 2) * q;
        a
    };
    (f(c), f(c))
}
fn round<T: Num, const N: usize>(c: &mut Ctx) {
    let k = if c.rng.chance(1, 4) { 0 } else { 1 };
    let (a, b) = (arr::<T, N>(c, k), arr::<T, N>(c, k));
    let s = T::gen(&mut c.rng, k);
    all_n(c, a, b, s);
}
pub fn run(c: &mut Ctx) {
    for j in c.scn.clone() {
        let (a, b) = (j.get("a").ints(), j.get("b").ints());
        let s = c.rng.int(-3, 3);
        fn to<T: S>(v: &[i64]) -> [T; 3] {
            [T::small(v[0]).unwrap(), T::small(v[1]).unwrap(), T::small(v[2]).unwrap()]
        }
        let (x, y) = (to::<i32>(&a), to::<i32>(&b));
        signed_n(c, x, y);
        cross(c, x, y);
        vp(c, x, y);
        let (x, y) = (to::<f32>(&a), to::<f32>(&b));
        common::<f32, 3, VM>(c, "v", x, y, s as f32);
        cross(c, x, y);
        float_n(c, x, y);
    }
    for _ in 0..c.count {
        macro_rules! every {
            ($($t:ty)*) => {$({
                match c.rng.below(3) {
                    0 => round::<$t, 2>(c),
                    1 => round::<$t, 3>(c),
                    _ => round::<$t, 4>(c),
                }
                let s = arr::<$t, 4>(c, 0);
                news(c, s);
            })*};
        }
        every!(u32 i32 i64 f32 f64);
        macro_rules! sgn {
            ($($t:ty)*) => {$({
                match c.rng.below(3) {
                    0 => { let (a, b) = (arr::<$t, 2>(c, 1), arr::<$t, 2>(c, 1)); signed_n(c, a, b) }
                    1 => { let (a, b) = (arr::<$t, 3>(c, 1), arr::<$t, 3>(c, 1)); signed_n(c, a, b) }
                    _ => { let (a, b) = (arr::<$t, 4>(c, 1), arr::<$t, 4>(c, 1)); signed_n(c, a, b) }
                }
                let (a, b) = (arr::<$t, 3>(c, 1), arr::<$t, 3>(c, 1));
                cross(c, a, b);
            })*};
        }
        sgn!(i32 i64 f32 f64);
        macro_rules! flt {
            ($($t:ty)*) => {$({
                match c.rng.below(3) {
                    0 => { let (a, b) = scaled::<$t, 2>(c); float_n(c, a, b); signed_n(c, a, b) }
                    1 => { let (a, b) = scaled::<$t, 3>(c); float_n(c, a, b); signed_n(c, a, b); cross(c, a, b) }
                    _ => { let (a, b) = scaled::<$t, 4>(c); float_n(c, a, b); signed_n(c, a, b) }
                }
                match c.rng.below(3) {
                    0 => { let (a, b) = (arr::<$t, 2>(c, 1), arr::<$t, 2>(c, 1)); float_n(c, a, b) }
                    1 => { let (a, b) = (arr::<$t, 3>(c, 1), arr::<$t, 3>(c, 1)); float_n(c, a, b) }
                    _ => { let (a, b) = (arr::<$t, 4>(c, 1), arr::<$t, 4>(c, 1)); float_n(c, a, b) }
                }
            })*};
        }
        flt!(f32 f64);
    }
    let _ = <f32 as GFloat>::half();
    let _ = <f32 as Scalar>::zero();
}
