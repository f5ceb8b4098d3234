//! C12: algebra of vectors, points and normals with interval components.
use crate::interval::{self, enc, raw, Iv};
use crate::out::{guard, Ev};
use crate::rng::{self, F};
use crate::xf::{e3, eiv};
use crate::Ctx;
use scarlet::geometry::ray::Ray;
use scarlet::math::vector::{GenericVector, InnerProduct, Norm, Normal, Point, Point3, Vector, Vector3};

fn put<T: F>(c: &mut Ctx, f: &str, a: &[Iv<T>], b: Option<&[Iv<T>]>, s: Option<String>, o: Option<String>) {
    let mut e = Ev::new("ivec").s("f", f).raw("a", &eiv(a));
    if let Some(b) = b {
        e = e.raw("b", &eiv(b));
    }
    if let Some(s) = s {
        e = e.raw("s", &s);
    }
    e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
type V<T, const N: usize> = Vector<Iv<T>, N>;
type P<T, const N: usize> = Point<Iv<T>, N>;

fn generic<T: F, const N: usize, U: Copy>(c: &mut Ctx, a: [Iv<T>; N], b: [Iv<T>; N], s: T, i: Iv<T>)
where
    GenericVector<Iv<T>, N, U>: Copy,
{
    let x: GenericVector<Iv<T>, N, U> = a.into();
    let y: GenericVector<Iv<T>, N, U> = b.into();
    macro_rules! v2 { ($f:expr, $e:expr) => {{ let o = guard(|| eiv(&($e).vec)); put(c, $f, &a, Some(&b), None, o); }}; }
    v2!("add", x + y);
    v2!("add", { let mut z = x; z += y; z });
    v2!("mul", x * y);
    v2!("div", x / y);
    v2!("min", x.min(y));
    v2!("max", x.max(y));
    let o = guard(|| eiv(&(-x).vec));
    put(c, "neg", &a, None, None, o);
    let o = guard(|| eiv(&(x * s).vec));
    put(c, "muls", &a, None, Some(s.enc()), o);
    let o = guard(|| eiv(&(x / s).vec));
    put(c, "divs", &a, None, Some(s.enc()), o);
    let o = guard(|| eiv(&(x * i).vec));
    put(c, "muli", &a, None, Some(enc(i)), o);
    let o = guard(|| eiv(&(x / i).vec));
    put(c, "divi", &a, None, Some(enc(i)), o);
    let o = guard(|| enc(x.dot(y)));
    put(c, "dot", &a, Some(&b), None, o);
    let o = guard(|| enc(InnerProduct::dot(x, y)));
    put(c, "dot", &a, Some(&b), None, o);
    let o = guard(|| enc(Norm::square_norm(x)));
    put(c, "sqn", &a, None, None, o);
    let o = guard(|| enc(Norm::norm(x)));
    put(c, "norm", &a, None, None, o);
    let o = guard(|| eiv(&Norm::normalize(x).vec));
    put(c, "unit", &a, None, None, o);
    // exact vectors and back
    let ex: GenericVector<T, N, U> = a.map(|q| q.inf).into();
    let lo = a.map(|q| raw(q.inf, q.inf));
    let o = guard(|| eiv(&GenericVector::<Iv<T>, N, U>::from(ex).vec));
    put(c, "from", &lo, None, None, o);
    let o = guard(|| e3(&GenericVector::<T, N, U>::from(x).vec));
    put(c, "to", &a, None, None, o);
}
fn special<T: F, const N: usize>(c: &mut Ctx, a: [Iv<T>; N], b: [Iv<T>; N]) {
    let (x, y): (V<T, N>, V<T, N>) = (a.into(), b.into());
    let (p, q): (P<T, N>, P<T, N>) = (a.into(), b.into());
    macro_rules! v2 { ($f:expr, $e:expr) => {{ let o = guard(|| eiv(&($e).vec)); put(c, $f, &a, Some(&b), None, o); }}; }
    v2!("sub", x - y);
    v2!("sub", { let mut z = x; z -= y; z });
    v2!("pv", p + y);
    v2!("pv", x + q);
    v2!("pmv", p - y);
    v2!("pp", p - q);
    let o = guard(|| enc(Norm::square_distance(x, y)));
    put(c, "sqd", &a, Some(&b), None, o);
    let o = guard(|| enc(Norm::distance(x, y)));
    put(c, "dist", &a, Some(&b), None, o);
    let o = guard(|| enc(x.square_norm()));
    put(c, "sqn", &a, None, None, o);
    let o = guard(|| enc(x.norm()));
    put(c, "norm", &a, None, None, o);
    let o = guard(|| eiv(&x.normalize().vec));
    put(c, "unit", &a, None, None, o);
    let o = guard(|| enc(x.square_distance(y)));
    put(c, "sqd", &a, Some(&b), None, o);
    let o = guard(|| enc(x.distance(y)));
    put(c, "dist", &a, Some(&b), None, o);
}
fn three<T: F>(c: &mut Ctx, a: [Iv<T>; 3], b: [Iv<T>; 3], i: Iv<T>) {
    let (x, y): (Vector3<Iv<T>>, Vector3<Iv<T>>) = (a.into(), b.into());
    let o = guard(|| eiv(&x.cross(y).vec));
    put(c, "cross", &a, Some(&b), None, o);
    let ray = Ray::new(Point3::from(a), y, i);
    let o = guard(|| eiv(&ray.eval(i).vec));
    put(c, "eval", &a, Some(&b), Some(enc(i)), o);
}
fn one<T: F>(c: &mut Ctx) -> Iv<T> {
    let r = &mut c.rng;
    match r.below(8) {
        0 => {
            let x = rng::mid::<T>(r, 10);
            raw(x, interval::up(x))
        }
        1 => {
            let x = rng::mid::<T>(r, 4);
            raw(x, x)
        }
        2 => raw(T::of(0.0), T::of(r.uni(0.0, 3.0))),
        3 => raw(T::of(r.uni(-3.0, 0.0)), T::of(r.uni(0.0, 3.0))),
        4 => raw(T::of(-2.0), T::neg_zero()),
        _ => {
            let (x, y) = (rng::mid::<T>(r, 3), rng::mid::<T>(r, 3));
            if x <= y { raw(x, y) } else { raw(y, x) }
        }
    }
}
fn all<T: F>(c: &mut Ctx) {
    let s = rng::mid::<T>(&mut c.rng, 6);
    let i = one::<T>(c);
    let a: [Iv<T>; 3] = [one(c), one(c), one(c)];
    let b: [Iv<T>; 3] = [one(c), one(c), one(c)];
    batch(c, a, b, s, i);
    let a: [Iv<T>; 2] = [one(c), one(c)];
    let b: [Iv<T>; 2] = [one(c), one(c)];
    if c.rng.bool() {
        generic::<T, 2, scarlet::math::vector::VectorMarker>(c, a, b, s, i);
    } else {
        special(c, a, b);
    }
    let a: [Iv<T>; 4] = [one(c), one(c), one(c), one(c)];
    let b: [Iv<T>; 4] = [one(c), one(c), one(c), one(c)];
    if c.rng.bool() {
        generic::<T, 4, scarlet::math::vector::VectorMarker>(c, a, b, s, i);
    } else {
        special(c, a, b);
    }
}
fn batch<T: F>(c: &mut Ctx, a: [Iv<T>; 3], b: [Iv<T>; 3], s: T, i: Iv<T>) {
    use scarlet::math::vector::{NormalMarker, PointMarker, VectorMarker};
    let _: Option<Normal<T, 3>> = None;
    match c.rng.below(3) {
        0 => generic::<T, 3, VectorMarker>(c, a, b, s, i),
        1 => generic::<T, 3, PointMarker>(c, a, b, s, i),
        _ => generic::<T, 3, NormalMarker>(c, a, b, s, i),
    }
    special(c, a, b);
    three(c, a, b, i);
}
pub fn run(c: &mut Ctx) {
    for (n, j) in c.scn.clone().iter().enumerate() {
        if !j.has("iv") || (c.count < 100 && n % 8 != 0) {
            continue;
        }
        let v: Vec<Iv<f32>> = j.get("iv").arr().iter().map(|p| {
            let q = p.ints();
            raw(q[0] as f32, q[1] as f32)
        }).collect();
        batch(c, [v[0], v[1], v[2]], [v[2], v[3], v[0]], 3.0, v[3]);
    }
    for _ in 0..c.count {
        all::<f32>(c);
        all::<f64>(c);
    }
}
