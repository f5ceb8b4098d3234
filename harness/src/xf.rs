//! C09, C11, C12, C14: transform programs (constructors, products, inversions)
//! and the images of points, vectors, normals, rays, boxes and interval objects.
use crate::interval::{enc as enc_iv, raw, Iv};
use crate::mats::enc_m;
use crate::out::{guard, list, Ev};
use crate::rng::{self, Rng, F};
use crate::scalar::S;
use crate::Ctx;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::Ray;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point3, Vector3};

pub fn e3<T: F>(v: &[T]) -> String {
    list(v.iter().map(|x| x.enc()))
}
/// what was constructed: constructor name and parameters
#[derive(Clone, Debug)]
pub struct Con<T> {
    pub c: &'static str,
    pub p: Vec<T>,
}
pub fn build<T: F + S>(k: &Con<T>) -> Transform<T> {
    let p = &k.p;
    let v = |i: usize| Vector3::new(p[i], p[i + 1], p[i + 2]);
    let q = |i: usize| Point3::new(p[i], p[i + 1], p[i + 2]);
    match k.c {
        "id" => Transform::identity(),
        "tr" => Transform::translate(v(0)),
        "sc" => Transform::scale(v(0)),
        "rx" => Transform::rotate_x(p[0]),
        "ry" => Transform::rotate_y(p[0]),
        "rz" => Transform::rotate_z(p[0]),
        "rot" => Transform::rotate(v(0), p[3]),
        "look" => Transform::look_at(q(0), q(3), v(6)),
        "persp" => Transform::perspective(p[0], p[1], p[2]),
        "new" => {
            let mut d = [[T::zero(); 4]; 4];
            for i in 0..16 {
                d[i / 4][i % 4] = p[i];
            }
            let m = Matrix4x4::from(d);
            Transform::new(m, m.inverse())
        }
        _ => panic!("constructor {}", k.c),
    }
}
pub fn affine(c: &str) -> bool {
    c != "persp"
}
pub fn angle<T: F>(r: &mut Rng) -> T {
    match r.below(8) {
        0 if r.chance(1, 4) => T::of(r.uni(-1.0, 1.0) * stretch(r, 14)),
        0 => T::of(r.int(-8, 8) as f64 * std::f64::consts::FRAC_PI_4),
        1 => T::of(r.int(-4, 4) as f64 * std::f64::consts::FRAC_PI_2),
        2 => T::of(r.uni(-0.01, 0.01)),
        3 => T::of(r.uni(-300.0, 300.0)),
        _ => T::of(r.uni(-7.0, 7.0)),
    }
}
/// 1 mostly, otherwise a power of two between 2^-lim and 2^lim
pub fn stretch(r: &mut Rng, lim: i64) -> f64 {
    if r.chance(1, 3) { 2f64.powi(r.int(-lim, lim) as i32) } else { 1.0 }
}
fn axis<T: F>(r: &mut Rng) -> Vec<T> {
    let s = T::of(stretch(r, 14));
    axis1::<T>(r).into_iter().map(|x| x * s).collect()
}
fn axis1<T: F>(r: &mut Rng) -> Vec<T> {
    loop {
        let v: Vec<T> = match r.below(4) {
            0 => {
                let k = r.below(3) as usize;
                let s = T::of(if r.bool() { 1.0 } else { -2.5 });
                (0..3).map(|i| if i == k { s } else { T::of(0.0) }).collect()
            }
            1 => (0..3).map(|_| T::of(r.int(-3, 3) as f64)).collect(),
            _ => (0..3).map(|_| T::of(r.uni(-5.0, 5.0))).collect(),
        };
        let n: f64 = v.iter().map(|x| x.d() * x.d()).sum();
        if n > 0.05 {
            return v;
        }
    }
}
pub fn coord<T: F>(r: &mut Rng) -> T {
    match r.below(8) {
        0 => T::of(0.0),
        1 | 2 => rng::simple(r),
        3 => T::neg_zero(),
        _ => rng::mid(r, 5),
    }
}
pub fn triple<T: F>(r: &mut Rng) -> Vec<T> {
    let s = T::of(stretch(r, 12));
    (0..3).map(|_| coord::<T>(r) * s).collect()
}
pub fn look<T: F>(r: &mut Rng) -> Vec<T> {
    loop {
        let (mut p, mut t, u): (Vec<T>, Vec<T>, Vec<T>) = (triple(r), triple(r), axis(r));
        let s = T::of(stretch(r, 10));
        for i in 0..3 {
            p[i] = p[i] * s;
            t[i] = t[i] * s;
        }
        let z: Vec<f64> = (0..3).map(|i| p[i].d() - t[i].d()).collect();
        let u2: Vec<f64> = u.iter().map(|x| x.d()).collect();
        let cr = [u2[1] * z[2] - u2[2] * z[1], u2[2] * z[0] - u2[0] * z[2], u2[0] * z[1] - u2[1] * z[0]];
        let n = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n(&z) > 0.02 * s.d() && n(&cr) > 0.15 * n(&z) * n(&u2) {
            return [p, t, u].concat();
        }
    }
}
pub fn persp<T: F>(r: &mut Rng) -> Vec<T> {
    let near = stretch(r, 10) * if r.bool() { r.uni(0.05, 5.0) } else { r.int(1, 3) as f64 };
    let far = near
        * match r.below(5) {
            0 | 1 => r.uni(1.5, 100.0),
            2 | 3 => r.int(2, 8) as f64,
            _ => 10f64.powf(r.uni(0.05, 5.0)),
        };
    let fov = match r.below(6) {
        0 => std::f64::consts::FRAC_PI_2,
        1 => r.uni(0.01, 0.2),
        2 => r.uni(2.8, 3.1),
        _ => r.uni(0.2, 2.8),
    };
    vec![T::of(fov), T::of(near), T::of(far)]
}
/// a shape of matrix someone might special-case: triangular, symmetric, a plane's shear, rows of
/// unit length, equal diagonals
fn special<T: F>(r: &mut Rng) -> Vec<T> {
    let mut d = vec![T::of(0.0); 16];
    let kind = r.below(5);
    let s = T::of(if r.bool() { r.uni(0.5, 3.0) } else { r.uni(-3.0, -0.5) });
    let u = [[1.0, 0.0, 0.0], [0.6, 0.8, 0.0], [0.0, 0.6, 0.8], [0.48, 0.6, 0.64]];
    let up = r.bool();
    for i in 0..3 {
        for j in 0..3 {
            let g = T::of(r.uni(-1.0, 1.0));
            d[4 * i + j] = match kind {
                0 => if i == j { s } else if (i < j) == up { g } else { T::of(0.0) },
                1 => if i == j { T::of(2.5) } else if i < j { g } else { d[4 * j + i] },
                2 => if i == j { T::of(1.0) } else if (i == 0) == up && i < 2 { g } else { T::of(0.0) },
                3 => T::of(if up { u[(i + 1) % 4][(j + i) % 3] } else { u[(j + 1) % 4][(j + i) % 3] }),
                _ => if i == j { s } else if (i + 1) % 3 == j { g } else { T::of(0.0) },
            };
        }
        if r.bool() {
            d[4 * i + 3] = T::of(r.uni(-4.0, 4.0));
        }
    }
    d[15] = T::of(1.0);
    d
}
fn general<T: F>(r: &mut Rng) -> Vec<T> {
    if r.chance(1, 3) {
        loop {
            let d = special::<T>(r);
            let x = |i: usize, j: usize| d[4 * i + j].d();
            let det = x(0, 0) * (x(1, 1) * x(2, 2) - x(1, 2) * x(2, 1)) - x(0, 1) * (x(1, 0) * x(2, 2) - x(1, 2) * x(2, 0))
                + x(0, 2) * (x(1, 0) * x(2, 1) - x(1, 1) * x(2, 0));
            if det.abs() > 0.1 {
                return d;
            }
        }
    }
    let mut d = vec![T::of(0.0); 16];
    let s = r.below(3) as usize;
    let z = stretch(r, 8);
    for i in 0..3 {
        for j in 0..4 {
            let diag = if (i + s) % 3 == j { if r.bool() { 2.0 } else { -1.0 } } else { 0.0 };
            d[4 * i + j] = T::of(z * (diag + r.uni(-0.3, 0.3)));
        }
    }
    d[15] = T::of(1.0);
    d
}
/// constructor number g of the model, with the model's parameters or others of its kind
pub fn con<T: F + S>(r: &mut Rng, g: i64, exact: bool) -> Con<T> {
    let v = |xs: &[f64]| xs.iter().map(|x| T::of(*x)).collect::<Vec<T>>();
    let hp = std::f64::consts::FRAC_PI_2;
    let k = |c: &'static str, p: Vec<T>| Con { c, p };
    match (g, exact) {
        (1, true) => k("tr", v(&[1.0, -2.0, 3.0])),
        (1, false) => {
            let mut t = triple(r);
            if r.chance(1, 6) {
                let a = r.below(3) as usize;
                for i in 0..3 {
                    if i != a {
                        t[i] = T::of(0.0);
                    }
                }
            }
            k("tr", t)
        }
        (2, true) => k("sc", v(&[2.0, -1.0, 0.5])),
        (2, false) => {
            let mut p: Vec<T> =
                (0..3).map(|_| T::of(stretch(r, 10) * if r.bool() { r.uni(0.1, 8.0) } else { r.uni(-8.0, -0.1) })).collect();
            // uniform, mirrored, along one axis only
            match r.below(8) {
                0 => p = vec![p[0]; 3],
                1 => p = vec![p[0], -p[0], p[0]],
                2 => {
                    let a = r.below(3) as usize;
                    for i in 0..3 {
                        if i != a {
                            p[i] = T::of(if r.bool() { 1.0 } else { -1.0 });
                        }
                    }
                }
                _ => {}
            }
            k("sc", p)
        }
        (3, true) => k("rx", v(&[hp])),
        (3, false) => k("rx", vec![angle(r)]),
        (4, true) => k("ry", v(&[hp])),
        (4, false) => k("ry", vec![angle(r)]),
        (5, true) => k("rz", v(&[0.9272952180016122])),
        (5, false) => k("rz", vec![angle(r)]),
        (6, true) => k("rot", v(&[1.0, 1.0, 1.0, 2.0943951023931953])),
        (6, false) => {
            let mut p = axis(r);
            p.push(angle(r));
            k("rot", p)
        }
        (7, true) => k("look", v(&[4.0, 1.0, 2.0, -1.0, 1.0, 2.0, 0.0, 3.0, 0.0])),
        (7, false) => k("look", look(r)),
        (8, true) => k("persp", v(&[hp, 1.0, 2.0])),
        (8, false) => k("persp", persp(r)),
        (10, _) => k("new", general(r)),
        _ => k("id", vec![]),
    }
}
fn mats<T: F + S>(t: &Transform<T>) -> Ev {
    Ev::o().raw("m", &enc_m(&t.matrix().data)).raw("i", &enc_m(&t.inverse_matrix().data))
}
fn fin<T: F + S>(e: Ev, t: &Option<Transform<T>>) -> Ev {
    match t {
        Some(x) => e.b("panic", false).sub("o", mats(x)),
        None => e.b("panic", true),
    }
}
fn arr<T: F>(v: &[T]) -> [T; 3] {
    [v[0], v[1], v[2]]
}
struct M<T: F + S> {
    r: Vec<Transform<T>>,
    aff: Vec<bool>,
}
impl<T: F + S> M<T> {
    fn new(c: &mut Ctx) -> Self {
        c.out.emit(Ev::new("begin").i("w", T::W as i64));
        M { r: vec![], aff: vec![] }
    }
    fn con(&mut self, c: &mut Ctx, k: Con<T>) {
        let t = guard(|| build(&k));
        let mut e = Ev::new("con").s("c", k.c).raw("p", &e3(&k.p));
        if k.c == "look" {
            e = e.raw("pos", &e3(&k.p[0..3]));
        }
        c.out.emit(fin(e, &t));
        self.r.push(t.unwrap_or(Transform::identity()));
        self.aff.push(affine(k.c));
    }
    fn mul(&mut self, c: &mut Ctx, a: usize, b: usize) {
        let (x, y) = (self.r[a], self.r[b]);
        let t = guard(|| x * y);
        c.out.emit(fin(Ev::new("mul").i("a", a as i64 + 1).i("b", b as i64 + 1), &t));
        self.r.push(t.unwrap_or(Transform::identity()));
        self.aff.push(self.aff[a] && self.aff[b]);
    }
    fn inv(&mut self, c: &mut Ctx, a: usize) {
        let x = self.r[a];
        let t = guard(|| x.inverse());
        c.out.emit(fin(Ev::new("inv").i("a", a as i64 + 1), &t));
        self.r.push(t.unwrap_or(Transform::identity()));
        self.aff.push(self.aff[a]);
    }
    fn img(&self, r: usize, dir: u64, k: &str, x: [T; 3]) -> [T; 3] {
        let t = &self.r[r];
        match (k, dir) {
            ("p", 0) => t.map(Point3::from(x)).vec,
            ("p", _) => t.map_inverse(Point3::from(x)).vec,
            ("v", 0) => t.map(Vector3::from(x)).vec,
            ("v", _) => t.map_inverse(Vector3::from(x)).vec,
            ("n", 0) => t.map(Normal3::from(x)).vec,
            _ => t.map_inverse(Normal3::from(x)).vec,
        }
    }
    fn map(&self, c: &mut Ctx, r: usize, k: &str) {
        let dir = c.rng.below(2);
        let x = arr(&triple::<T>(&mut c.rng));
        let o = guard(|| e3(&self.img(r, dir, k, x)));
        self.put(c, Ev::new("map").i("r", r as i64 + 1).i("dir", dir as i64).s("k", k).raw("x", &e3(&x)), o);
    }
    fn put(&self, c: &mut Ctx, e: Ev, o: Option<String>) {
        let e = e.b("panic", o.is_none());
        c.out.emit(match o {
            Some(t) => e.raw("o", &t),
            None => e,
        });
    }
    fn rt(&self, c: &mut Ctx, r: usize, k: &str) {
        let dir = c.rng.below(2);
        let x = arr(&triple::<T>(&mut c.rng));
        let o = guard(|| e3(&self.img(r, 1 - dir, k, self.img(r, dir, k, x))));
        self.put(c, Ev::new("rt").i("r", r as i64 + 1).i("dir", dir as i64).s("k", k).raw("x", &e3(&x)), o);
    }
    fn ray(&self, c: &mut Ctx, r: usize) {
        let dir = c.rng.below(2);
        let (o, d) = (arr(&triple::<T>(&mut c.rng)), arr(&triple::<T>(&mut c.rng)));
        let tm = match c.rng.below(3) {
            0 => T::maxv(),
            1 => T::of(f64::INFINITY),
            _ => T::of(c.rng.uni(0.0, 9.0)),
        };
        let ray = Ray::new(Point3::from(o), Vector3::from(d), tm);
        let res = guard(|| if dir == 0 { self.r[r].map(ray) } else { self.r[r].map_inverse(ray) }).map(|q| {
            format!(
                "{{\"org\":{},\"d\":{},\"tmax\":{}}}",
                e3(&q.origin.vec),
                e3(&q.direction.vec),
                q.tmax.enc()
            )
        });
        let e = Ev::new("ray").i("r", r as i64 + 1).i("dir", dir as i64);
        self.put(c, e.raw("org", &e3(&o)).raw("d", &e3(&d)).f("tmax", tm), res);
        let t = coord::<T>(&mut c.rng);
        let res = guard(|| e3(&ray.eval(t).vec));
        self.put(c, Ev::new("eval").raw("org", &e3(&o)).raw("d", &e3(&d)).f("t", t), res);
    }
    fn nrm(&self, c: &mut Ctx, r: usize) {
        let dir = c.rng.below(2);
        let n = arr(&triple::<T>(&mut c.rng));
        let mut v = arr(&triple::<T>(&mut c.rng));
        if c.rng.bool() {
            // exactly perpendicular
            let k = c.rng.below(3) as usize;
            v[k] = T::of(0.0);
            let (i, j) = ((k + 1) % 3, (k + 2) % 3);
            v[i] = n[j];
            v[j] = -n[i];
        }
        let res = guard(|| {
            format!("{{\"n\":{},\"v\":{}}}", e3(&self.img(r, dir, "n", n)), e3(&self.img(r, dir, "v", v)))
        });
        let e = Ev::new("nrm").i("r", r as i64 + 1).i("dir", dir as i64);
        self.put(c, e.raw("n", &e3(&n)).raw("v", &e3(&v)), res);
    }
    fn ivmap(&self, c: &mut Ctx, r: usize, k: &str) {
        let dir = c.rng.below(2);
        let x = ivs::<T>(&mut c.rng, k == "p" && !self.aff[r]);
        let t = &self.r[r];
        let res = guard(|| match (k, dir) {
            ("p", 0) => t.map(Point3::from(x)).vec,
            ("p", _) => t.map_inverse(Point3::from(x)).vec,
            ("v", 0) => t.map(Vector3::from(x)).vec,
            ("v", _) => t.map_inverse(Vector3::from(x)).vec,
            ("n", 0) => t.map(Normal3::from(x)).vec,
            _ => t.map_inverse(Normal3::from(x)).vec,
        })
        .map(|o| eiv(&o));
        self.put(c, Ev::new("ivmap").i("r", r as i64 + 1).i("dir", dir as i64).s("k", k).raw("x", &eiv(&x)), res);
    }
    fn ivray(&self, c: &mut Ctx, r: usize) {
        let dir = c.rng.below(2);
        let (o, d) = (ivs::<T>(&mut c.rng, false), ivs::<T>(&mut c.rng, false));
        let tm = ivs::<T>(&mut c.rng, false)[0];
        let ray = Ray::new(Point3::from(o), Vector3::from(d), tm);
        let res = guard(|| if dir == 0 { self.r[r].map(ray) } else { self.r[r].map_inverse(ray) }).map(|q| {
            format!(
                "{{\"org\":{},\"d\":{},\"tmax\":{}}}",
                eiv(&q.origin.vec),
                eiv(&q.direction.vec),
                enc_iv(q.tmax)
            )
        });
        let e = Ev::new("ivray").i("r", r as i64 + 1).i("dir", dir as i64);
        self.put(c, e.raw("org", &eiv(&o)).raw("d", &eiv(&d)).raw("tmax", &enc_iv(tm)), res);
    }
}
pub fn eiv<T: F>(v: &[Iv<T>]) -> String {
    list(v.iter().map(|x| enc_iv(*x)))
}
pub fn ivs<T: F>(r: &mut Rng, narrow: bool) -> [Iv<T>; 3] {
    let kind = r.below(5);
    let mut one = || {
        let x: T = coord(r);
        let wd = match kind {
            0 => 0.0,
            1 => r.uni(0.0, 1e-5),
            2 if !narrow => r.uni(0.0, 6.0),
            3 => 0.0,
            _ => r.uni(0.0, 0.05),
        };
        let mut y = x + T::of(wd);
        if kind == 3 && r.bool() {
            y = crate::interval::up(x);
        }
        raw(x, y)
    };
    [one(), one(), one()]
}
impl M<f32> {
    fn bbox(&self, c: &mut Ctx, r: usize) {
        let dir = c.rng.below(2);
        let (p, mut q) = (arr(&triple::<f32>(&mut c.rng)), arr(&triple::<f32>(&mut c.rng)));
        if c.rng.chance(1, 6) {
            let k = c.rng.below(3) as usize;
            q[k] = p[k];
        }
        let empty = c.rng.chance(1, 12);
        let mut b = if empty { Bbox3::default() } else { Bbox3::new(Point3::from(p), Point3::from(q)) };
        // the intersection of disjoint boxes: empty in one coordinate or two
        let apart = !empty && c.rng.chance(1, 10);
        if apart {
            let n = 1 + c.rng.below(2) as usize;
            let k = c.rng.below(3) as usize;
            for i in k..k + n {
                if b.pmin[i % 3] < b.pmax[i % 3] {
                    let t = b.pmin[i % 3];
                    b.pmin[i % 3] = b.pmax[i % 3];
                    b.pmax[i % 3] = t;
                }
            }
        }
        let res = guard(|| if dir == 0 { self.r[r].map(b) } else { self.r[r].map_inverse(b) })
            .map(|o| format!("{{\"lo\":{},\"hi\":{}}}", e3(&o.pmin.vec), e3(&o.pmax.vec)));
        let mut lo: Vec<f32> = (0..3).map(|i| if p[i] <= q[i] { p[i] } else { q[i] }).collect();
        let mut hi: Vec<f32> = (0..3).map(|i| if p[i] <= q[i] { q[i] } else { p[i] }).collect();
        if apart {
            lo = b.pmin.vec.to_vec();
            hi = b.pmax.vec.to_vec();
        }
        if empty {
            lo = vec![f32::MAX; 3];
            hi = vec![f32::MIN; 3];
        }
        let e = Ev::new("box").i("r", r as i64 + 1).i("dir", dir as i64);
        self.put(c, e.raw("lo", &e3(&lo)).raw("hi", &e3(&hi)), res);
    }
}
trait Boxes {
    fn boxes(&self, c: &mut Ctx, r: usize);
}
impl Boxes for M<f32> {
    fn boxes(&self, c: &mut Ctx, r: usize) {
        self.bbox(c, r);
    }
}
impl Boxes for M<f64> {
    fn boxes(&self, _c: &mut Ctx, _r: usize) {}
}
fn probe<T: F + S>(c: &mut Ctx, m: &M<T>, r: usize)
where
    M<T>: Boxes,
{
    let aff = m.aff[r];
    match c.prop.as_str() {
        "C09" => {
            m.map(c, r, "p");
            if aff {
                m.map(c, r, "v");
                m.map(c, r, "n");
                m.ray(c, r);
                let k = c.rng.pick(&["p", "v", "n"]);
                m.rt(c, r, k);
            }
        }
        "C11" if aff => {
            m.nrm(c, r);
            m.nrm(c, r);
            m.map(c, r, "n");
            m.rt(c, r, "n");
        }
        "C12" => {
            m.ivmap(c, r, "p");
            if aff {
                m.ivmap(c, r, "v");
                m.ivmap(c, r, "n");
                m.ivray(c, r);
            }
        }
        "C14" if aff => {
            m.boxes(c, r);
            m.boxes(c, r);
        }
        _ => (),
    }
}
fn program<T: F + S>(c: &mut Ctx, ops: &[(String, i64, i64)], exact: bool)
where
    M<T>: Boxes,
{
    let mut m = M::<T>::new(c);
    for (op, a, b) in ops {
        match op.as_str() {
            "con" => {
                let k = con::<T>(&mut c.rng, *a, exact);
                m.con(c, k)
            }
            "mul" => m.mul(c, *a as usize - 1, *b as usize - 1),
            _ => m.inv(c, *a as usize - 1),
        }
    }
    // every register of a longer program, the last two of a short one
    let from = if exact { m.r.len().saturating_sub(2) } else { m.r.len().saturating_sub(3) };
    for r in from..m.r.len() {
        probe(c, &m, r);
    }
}
pub fn run(c: &mut Ctx) {
    let only32 = c.prop == "C14";
    let scn: Vec<_> = c.scn.iter().filter(|j| j.has("prog")).cloned().collect();
    let step = if c.count < 100 { 3 } else { 1 };
    for (i, j) in scn.iter().enumerate() {
        if i % step != 0 {
            continue;
        }
        let ops: Vec<(String, i64, i64)> = j
            .get("prog")
            .arr()
            .iter()
            .map(|o| (o.get("op").str().to_string(), o.get("a").int(), o.get("b").int()))
            .collect();
        let exact = (i / step) % 2 == 0;
        if only32 || c.rng.bool() {
            program::<f32>(c, &ops, exact)
        } else {
            program::<f64>(c, &ops, exact)
        }
    }
    for _ in 0..c.count {
        let n = c.rng.int(1, 3);
        let mut ops = vec![];
        for _ in 0..n {
            let g = c.rng.pick(&[1, 2, 3, 4, 5, 6, 7, 10, if c.prop == "C14" || c.prop == "C11" { 6 } else { 8 }]);
            ops.push(("con".to_string(), g, 0));
        }
        for k in 0..c.rng.int(0, 4) {
            let h = n + k;
            let a = c.rng.int(1, h);
            if c.rng.chance(1, 3) {
                ops.push(("inv".to_string(), a, 0));
            } else {
                ops.push(("mul".to_string(), a, c.rng.int(1, h)));
            }
        }
        if only32 || c.rng.bool() {
            program::<f32>(c, &ops, false)
        } else {
            program::<f64>(c, &ops, false)
        }
    }
}
