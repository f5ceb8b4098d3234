//! C10: what the transform constructors do, in both directions.
use crate::mats::enc_m;
use crate::out::{guard, Ev};
use crate::rng::F;
use crate::scalar::S;
use crate::xf::{self, build, e3, triple, Con};
use crate::Ctx;
use scarlet::math::transform::Transform;
use scarlet::math::vector::{Point3, Vector3};

fn put(c: &mut Ctx, e: Ev, o: Option<String>) {
    let e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
fn img<T: F + S>(c: &mut Ctx, t: &Transform<T>, dir: u64, k: &str, x: [T; 3]) {
    let o = guard(|| match (k, dir) {
        ("p", 0) => t.map(Point3::from(x)).vec,
        ("p", _) => t.map_inverse(Point3::from(x)).vec,
        (_, 0) => t.map(Vector3::from(x)).vec,
        _ => t.map_inverse(Vector3::from(x)).vec,
    })
    .map(|v| e3(&v));
    put(c, Ev::new("img").i("dir", dir as i64).s("k", k).raw("x", &e3(&x)), o);
}
fn case<T: F + S>(c: &mut Ctx, k: Con<T>) {
    c.out.emit(Ev::new("begin").i("w", T::W as i64));
    let t = guard(|| build(&k));
    let o = t.map(|t| {
        format!("{{\"m\":{},\"i\":{}}}", enc_m(&t.matrix().data), enc_m(&t.inverse_matrix().data))
    });
    put(c, Ev::new("con").s("c", k.c).raw("p", &e3(&k.p)), o);
    let t = match t {
        Some(t) => t,
        None => return,
    };
    let a3 = |v: &[T]| [v[0], v[1], v[2]];
    if k.c == "look" {
        img(c, &t, 0, "p", a3(&k.p[0..3]));
        img(c, &t, 0, "p", a3(&k.p[3..6]));
        img(c, &t, 0, "v", a3(&k.p[6..9]));
    }
    for dir in 0..2 {
        let x = triple::<T>(&mut c.rng);
        img(c, &t, dir, "p", a3(&x));
        if k.c != "persp" {
            let x = triple::<T>(&mut c.rng);
            img(c, &t, dir, "v", a3(&x));
        }
    }
    if k.c == "persp" {
        let (tan, n, f) = ((k.p[0].d() / 2.0).tan(), k.p[1], k.p[2]);
        for z in [n, f] {
            let h = T::of(z.d() * tan);
            let (sx, sy) = (c.rng.int(-1, 1), c.rng.int(-1, 1));
            let x = [h * T::of(sx as f64), h * T::of(sy as f64), -z];
            img(c, &t, 0, "p", x);
            let o = guard(|| t.map(Point3::from(x)).vec).map(|v| e3(&v));
            let want = format!("[{},{},{}]", sx, sy, (z == f) as i32);
            put(c, Ev::new("frustum").raw("x", &e3(&x)).raw("want", &want), o);
            let x = [T::of(sx as f64), T::of(sy as f64), T::of((z == f) as i64 as f64)];
            img(c, &t, 1, "p", x);
        }
    }
}
fn scenario<T: F + S>(c: &mut Ctx, j: &crate::out::J) {
    let u: Vec<f64> = j.get("u").ints().iter().map(|x| *x as f64 / 105.0).collect();
    let a = (j.get("s").int() as f64).atan2(j.get("c").int() as f64);
    let q: Vec<f64> = j.get("q").ints().iter().map(|x| *x as f64).collect();
    let v = |x: &[f64]| x.iter().map(|y| T::of(*y)).collect::<Vec<T>>();
    case(c, Con { c: "rot", p: v(&[u[0], u[1], u[2], a]) });
    // a view from q along -u, up along q (or an axis)
    let mut up = vec![q[1], q[2], q[0]];
    let cr = [up[1] * u[2] - up[2] * u[1], up[2] * u[0] - up[0] * u[2], up[0] * u[1] - up[1] * u[0]];
    if cr.iter().map(|x| x * x).sum::<f64>() < 0.2 {
        up = if u[0].abs() < 0.5 { vec![1.0, 0.0, 0.0] } else { vec![0.0, 1.0, 0.0] };
    }
    let tg: Vec<f64> = (0..3).map(|i| q[i] - 5.0 * u[i]).collect();
    case(c, Con { c: "look", p: v(&[&q[..], &tg[..], &up[..]].concat()) });
}
/// a view whose up direction is close to the viewing line (down to half a degree)
fn steep<T: F + S>(c: &mut Ctx) {
    let mut p = xf::look::<T>(&mut c.rng);
    let z: Vec<f64> = (0..3).map(|i| p[i].d() - p[3 + i].d()).collect();
    let n = z.iter().map(|x| x * x).sum::<f64>().sqrt();
    let (sg, sn) = (if c.rng.bool() { 1.0 } else { -1.0 }, 10f64.powf(c.rng.uni(-2.0, -0.5)));
    let u: Vec<f64> = (0..3).map(|i| p[6 + i].d()).collect();
    let m = u.iter().map(|x| x * x).sum::<f64>().sqrt();
    let k = u.iter().zip(&z).map(|(a, b)| a * b).sum::<f64>() / (n * n);
    let perp: Vec<f64> = (0..3).map(|i| (u[i] - k * z[i]) / m).collect();
    for i in 0..3 {
        p[6 + i] = T::of((sg * z[i] / n + sn * perp[i]) * m);
    }
    case(c, Con { c: "look", p });
}
pub fn run(c: &mut Ctx) {
    for (i, j) in c.scn.clone().iter().enumerate() {
        if i % 2 == 0 {
            scenario::<f32>(c, j)
        } else {
            scenario::<f64>(c, j)
        }
    }
    for n in 0..c.count {
        if n > 0 && c.rng.bool() {
            steep::<f32>(c);
        } else {
            steep::<f64>(c);
        }
        for g in 1..10 {
            let exact = n == 0;
            if c.rng.bool() {
                let k = xf::con::<f32>(&mut c.rng, g, exact);
                case(c, k);
            } else {
                let k = xf::con::<f64>(&mut c.rng, g, exact);
                case(c, k);
            }
        }
    }
}
