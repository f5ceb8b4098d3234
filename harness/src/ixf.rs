//! C23: transforms and matrices with interval entries.
use crate::interval::{enc, raw, up, Iv};
use crate::out::{guard, list, Ev, J};
use crate::rng::{Rng, F};
use crate::scalar::S;
use crate::xf::{affine, con, eiv, ivs, Con};
use crate::Ctx;
use scarlet::geometry::ray::Ray;
use scarlet::math::scalar::GFloat;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{Normal3, Point3, Vector3};

type X<T> = Transform<Iv<T>>;
fn emat<T: F>(d: &[[Iv<T>; 4]; 4]) -> String {
    list(d.iter().map(|r| eiv(r)))
}
fn mats<T: F>(t: &X<T>) -> Ev
where
    Iv<T>: GFloat,
{
    Ev::o().raw("m", &emat(&t.matrix().data)).raw("i", &emat(&t.inverse_matrix().data))
}
fn sel(r: &mut Rng, n: usize) -> String {
    list((0..n).map(|_| r.below(5).to_string()))
}
/// an interval about (or beginning at) x; kind says how wide
fn widen<T: F>(r: &mut Rng, x: T, kind: u64, clear: bool) -> Iv<T> {
    let rel = match kind {
        0 => return raw(x, x),
        1 => {
            let y = up(x);
            return if x <= y { raw(x, y) } else { raw(y, x) };
        }
        2 => 1e-4,
        3 => 1e-2,
        _ => 0.3,
    };
    let s = if clear { x.d().abs() } else { x.d().abs().max(0.5) };
    let y = x + T::of(s * rel * r.unit());
    raw(x, y)
}
struct M<T: F + S>
where
    Iv<T>: GFloat,
{
    r: Vec<X<T>>,
    /// 2 affine, 1 perspective, 0 any matrix
    aff: Vec<u8>,
}
fn kind_of(c: &str) -> u8 {
    if c == "full" {
        0
    } else {
        1 + affine(c) as u8
    }
}
/// a matrix with nothing special about any entry
fn full<T: F>(r: &mut Rng) -> Con<T> {
    let s = r.below(4) as usize;
    let p = (0..16)
        .map(|n| {
            let on = (n / 4 + s) % 4 == n % 4;
            T::of(if on { r.pick(&[2.0, -1.5]) } else { 0.0 } + r.uni(-0.4, 0.4))
        })
        .collect();
    Con { c: "full", p }
}
const MEM: usize = 3;
trait Build: F + S
where
    Iv<Self>: GFloat,
{
    fn build(c: &str, p: &[Iv<Self>]) -> X<Self>;
}
macro_rules! imp {
    ($t:ty) => {
        impl Build for $t {
            fn build(c: &str, p: &[Iv<$t>]) -> X<$t> {
                let v = |i: usize| Vector3::new(p[i], p[i + 1], p[i + 2]);
                let q = |i: usize| Point3::new(p[i], p[i + 1], p[i + 2]);
                match c {
                    "id" => Transform::identity(),
                    "tr" => Transform::translate(v(0)),
                    "sc" => Transform::scale(v(0)),
                    "rx" => Transform::rotate_x(p[0]),
                    "ry" => Transform::rotate_y(p[0]),
                    "rz" => Transform::rotate_z(p[0]),
                    "rot" => Transform::rotate(v(0), p[3]),
                    "look" => Transform::look_at(q(0), q(3), v(6)),
                    "persp" => Transform::perspective(p[0], p[1], p[2]),
                    "new" | "full" => {
                        let mut d = [[Iv::<$t>::from(0.0); 4]; 4];
                        for i in 0..16 {
                            d[i / 4][i % 4] = p[i];
                        }
                        let m = Matrix4x4::from(d);
                        Transform::new(m, m.inverse())
                    }
                    _ => panic!("constructor"),
                }
            }
        }
    };
}
imp!(f32);
imp!(f64);
fn put(c: &mut Ctx, e: Ev, o: Option<String>) {
    let e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
impl<T: Build> M<T>
where
    Iv<T>: GFloat,
{
    fn new(c: &mut Ctx) -> Self {
        c.out.emit(Ev::new("begin"));
        M { r: vec![], aff: vec![] }
    }
    fn push(&mut self, c: &mut Ctx, e: Ev, t: Option<X<T>>, aff: u8) {
        let e = e.b("panic", t.is_none());
        c.out.emit(match &t {
            Some(t) => e.sub("o", mats(t)),
            None => e,
        });
        self.r.push(t.unwrap_or(Transform::identity()));
        self.aff.push(aff);
    }
    fn con(&mut self, c: &mut Ctx, k: &'static str, p: Vec<Iv<T>>) {
        let t = guard(|| T::build(k, &p));
        let s = list((0..MEM).map(|_| sel(&mut c.rng, p.len())));
        self.push(c, Ev::new("con").s("c", k).raw("p", &eiv(&p)).raw("sel", &s), t, kind_of(k));
    }
    fn some(&mut self, c: &mut Ctx, k: Con<T>) {
        let wide = match k.c {
            "look" | "persp" | "new" | "full" => 4,
            _ => 5,
        };
        let kind = c.rng.below(wide);
        let clear = matches!(k.c, "sc" | "persp" | "look" | "rot");
        // how far the parameters of a view may move without the view directions losing their meaning
        let room: Vec<f64> = if k.c == "look" {
            let d: Vec<f64> = k.p.iter().map(|x| x.d()).collect();
            let v = [d[0] - d[3], d[1] - d[4], d[2] - d[5]];
            let u = [d[6], d[7], d[8]];
            let n = |a: [f64; 3]| (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt();
            let x = n([u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]);
            let sin = x / (n(u) * n(v));
            (0..9).map(|i| 0.1 * sin * if i < 6 { n(v) } else { n(u) }).collect()
        } else {
            vec![f64::INFINITY; k.p.len()]
        };
        let mut p: Vec<Iv<T>> = vec![];
        for (i, x) in k.p.iter().enumerate() {
            let kind = if c.rng.chance(1, 4) { 0 } else { kind };
            // the constant row of a general matrix stays exact
            let still = k.c == "new" && (x.d() == 0.0 || x.d() == 1.0);
            let v = widen(&mut c.rng, *x, if still { 0 } else { kind }, clear);
            p.push(if (v.sup.d() - v.inf.d()).abs() <= room[i] { v } else { raw(*x, *x) });
        }
        let p = p.into_iter().map(|v| if v.inf <= v.sup { v } else { raw(v.sup, v.inf) }).collect();
        self.con(c, k.c, p);
    }
    fn mul(&mut self, c: &mut Ctx, a: usize, b: usize) {
        let (x, y) = (self.r[a], self.r[b]);
        let t = guard(|| x * y);
        self.push(c, Ev::new("mul").i("a", a as i64 + 1).i("b", b as i64 + 1), t, std::cmp::min(self.aff[a], self.aff[b]));
    }
    fn inv(&mut self, c: &mut Ctx, a: usize) {
        let x = self.r[a];
        let t = guard(|| x.inverse());
        self.push(c, Ev::new("inv").i("a", a as i64 + 1), t, self.aff[a]);
    }
    fn map(&self, c: &mut Ctx, r: usize, k: &str) {
        let dir = c.rng.below(2);
        let x = ivs::<T>(&mut c.rng, k == "p" && self.aff[r] < 2);
        let t = &self.r[r];
        let o = guard(|| match (k, dir) {
            ("p", 0) => t.map(Point3::from(x)).vec,
            ("p", _) => t.map_inverse(Point3::from(x)).vec,
            ("v", 0) => t.map(Vector3::from(x)).vec,
            ("v", _) => t.map_inverse(Vector3::from(x)).vec,
            ("n", 0) => t.map(Normal3::from(x)).vec,
            _ => t.map_inverse(Normal3::from(x)).vec,
        })
        .map(|v| eiv(&v));
        let s = list((0..MEM).map(|_| sel(&mut c.rng, 3)));
        put(c, Ev::new("map").i("r", r as i64 + 1).i("dir", dir as i64).s("k", k).raw("x", &eiv(&x)).raw("sel", &s), o);
    }
    fn ray(&self, c: &mut Ctx, r: usize) {
        let dir = c.rng.below(2);
        let (o, d) = (ivs::<T>(&mut c.rng, false), ivs::<T>(&mut c.rng, false));
        let tm = ivs::<T>(&mut c.rng, false)[0];
        let ray = Ray::new(Point3::from(o), Vector3::from(d), tm);
        let res = guard(|| if dir == 0 { self.r[r].map(ray) } else { self.r[r].map_inverse(ray) }).map(|q| {
            format!("{{\"org\":{},\"d\":{},\"tmax\":{}}}", eiv(&q.origin.vec), eiv(&q.direction.vec), enc(q.tmax))
        });
        let s = list((0..MEM).map(|_| sel(&mut c.rng, 3)));
        let e = Ev::new("ray").i("r", r as i64 + 1).i("dir", dir as i64);
        put(c, e.raw("org", &eiv(&o)).raw("d", &eiv(&d)).raw("tmax", &enc(tm)).raw("sel", &s), res);
    }
    fn probe(&self, c: &mut Ctx, r: usize) {
        if self.aff[r] > 0 {
            self.map(c, r, "p");
        }
        if self.aff[r] == 2 {
            let k = if c.rng.bool() { "v" } else { "n" };
            self.map(c, r, k);
            if c.rng.bool() {
                self.ray(c, r);
            }
        }
        if self.aff[r] == 0 || c.rng.chance(1, 3) {
            let m = self.r[r].matrix();
            let o = guard(|| emat(&m.inverse().data));
            put(c, Ev::new("minv").i("r", r as i64 + 1), o);
        }
        if c.rng.chance(1, 6) {
            let m = self.r[r].matrix();
            let s = ivs::<T>(&mut c.rng, false)[0];
            let o = guard(|| emat(&(m * s).data));
            let q = sel(&mut c.rng, MEM);
            put(c, Ev::new("mscale").i("r", r as i64 + 1).raw("s", &enc(s)).raw("sel", &q), o);
        }
    }
}
fn program<T: Build>(c: &mut Ctx, ops: &[(String, i64, i64)])
where
    Iv<T>: GFloat,
{
    let mut m = M::<T>::new(c);
    for (op, a, b) in ops {
        match op.as_str() {
            "con" => {
                let k = if *a == 11 { full::<T>(&mut c.rng) } else { con::<T>(&mut c.rng, *a, false) };
                m.some(c, k)
            }
            "mul" => m.mul(c, *a as usize - 1, *b as usize - 1),
            _ => m.inv(c, *a as usize - 1),
        }
    }
    let from = m.r.len().saturating_sub(2);
    for r in from..m.r.len() {
        m.probe(c, r);
    }
}
/// a program of the model: one coordinate, integer bounds, replayed as it is
fn line<T: Build>(c: &mut Ctx, j: &J)
where
    Iv<T>: GFloat,
{
    let mut m = M::<T>::new(c);
    let ax = c.rng.below(3) as usize;
    for o in j.get("iprog").arr() {
        let (a, b) = (o.get("a").int(), o.get("b").int());
        match o.get("op").str() {
            "con" => {
                let e = T::of(if a == 1 { 0.0 } else { 1.0 });
                let mut p = vec![raw(e, e); 3];
                p[ax] = raw(T::of(o.get("lo").int() as f64), T::of(o.get("hi").int() as f64));
                m.con(c, if a == 1 { "tr" } else { "sc" }, p);
            }
            "mul" => m.mul(c, a as usize - 1, b as usize - 1),
            _ => m.inv(c, a as usize - 1),
        }
    }
    let r = m.r.len() - 1;
    m.probe(c, r);
}
fn ops_of(j: &J) -> Vec<(String, i64, i64)> {
    j.get("prog").arr().iter().map(|o| (o.get("op").str().to_string(), o.get("a").int(), o.get("b").int())).collect()
}
pub fn run(c: &mut Ctx) {
    let thin = |c: &mut Ctx, key: &str, cap: usize| -> Vec<J> {
        let v: Vec<J> = c.scn.iter().filter(|j| j.has(key)).cloned().collect();
        let step = (v.len() / cap.max(1)).max(1);
        let from = c.rng.below(step as u64) as usize;
        v.into_iter().skip(from).step_by(step).collect()
    };
    let cap = 4 * c.count as usize;
    for j in thin(c, "iprog", cap) {
        if c.rng.bool() { line::<f32>(c, &j) } else { line::<f64>(c, &j) }
    }
    for j in thin(c, "prog", cap) {
        let ops = ops_of(&j);
        if c.rng.bool() { program::<f32>(c, &ops) } else { program::<f64>(c, &ops) }
    }
    for _ in 0..c.count {
        let n = c.rng.int(1, 3);
        let mut ops = vec![];
        for _ in 0..n {
            ops.push(("con".to_string(), c.rng.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 11]), 0));
        }
        for k in 0..c.rng.int(0, 3) {
            let h = n + k;
            let a = c.rng.int(1, h);
            if c.rng.chance(1, 3) {
                ops.push(("inv".to_string(), a, 0));
            } else {
                ops.push(("mul".to_string(), a, c.rng.int(1, h)));
            }
        }
        if c.rng.bool() { program::<f32>(c, &ops) } else { program::<f64>(c, &ops) }
    }
}
