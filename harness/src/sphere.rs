//! C17, C18: rays against sphere patches.
use crate::out::{guard, Ev};
use crate::raybox::{full, ray_ev};
use crate::rng::{mid, Rng, F};
use crate::xf::{e3, stretch};
use crate::Ctx;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::geometry::sphere::Sphere;
use scarlet::math::vector::{Point3f, Vector3f};
use std::f32::consts::PI;

#[derive(Clone, Copy)]
pub struct Pat {
    pub r: f32,
    pub z0: f32,
    pub z1: f32,
    pub ph: f32,
}
fn query(c: &mut Ctx, s: Pat, r: Rayf) -> Option<f32> {
    let mut hit = None;
    let o = guard(|| {
        let sp = Sphere::new(s.r, s.z0, s.z1, s.ph);
        let i = sp.intersect(r);
        hit = i.map(|x| x.t_ray);
        let f = match (&i, c.prop.as_str()) {
            (Some(x), "C17") => format!("{{\"hit\":true,\"t\":{},\"p\":{}}}", x.t_ray.enc(), e3(&x.surface_interaction.p.vec)),
            _ => full(&i),
        };
        if c.prop == "C17" {
            let b = sp.bbox();
            let b = if i.is_some() { format!(",\"lo\":{},\"hi\":{}", e3(&b.pmin.vec), e3(&b.pmax.vec)) } else { String::new() };
            format!("{{\"yes\":{},\"full\":{}{}}}", sp.do_intersect(r), f, b)
        } else {
            format!("{{\"full\":{},\"th0\":{},\"th1\":{},\"area\":{}}}", f, sp.theta_min.enc(), sp.theta_max.enc(), sp.area().enc())
        }
    });
    let e = ray_ev(Ev::new("sph").f("r", s.r).f("z0", s.z0).f("z1", s.z1).f("ph", s.ph), &r).b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
    hit
}
fn mk(o: [f32; 3], d: [f32; 3], t: f32) -> Rayf {
    Ray::new(Point3f::from(o), Vector3f::from(d), t)
}
fn lattice(c: &mut Ctx, j: &crate::out::J) {
    let g = |k: &str| j.get(k).ints();
    let (p, q, z) = (g("p"), g("q"), g("z"));
    let s = c.rng.pick(&[1.0f32, 0.25, 4.0]);
    let ds = c.rng.pick(&[1.0f32, 0.5, 2.0]);
    let mut o = [0f32; 3];
    let mut d = [0f32; 3];
    for k in 0..3 {
        d[k] = (q[k] - p[k]) as f32 * s;
        o[k] = p[k] as f32 * s + d[k] * j.get("j").int() as f32 / 2.0;
        d[k] *= ds;
    }
    let ext = match j.get("x").int() {
        99 => c.rng.pick(&[50.0, f32::MAX, f32::INFINITY]),
        x => x as f32 / 2.0 / ds,
    };
    let ph = match j.get("a").int() {
        3 => PI,
        a => (a - 1) as f32 * PI / 2.0,
    };
    let n = j.get("r").int() as f32 * s;
    query(c, Pat { r: n, z0: z[0] as f32 * s, z1: z[1] as f32 * s, ph }, mk(o, d, ext));
}
pub fn patch(r: &mut Rng) -> Pat {
    let rad = match r.below(4) {
        0 => r.int(1, 8) as f32,
        1 => mid::<f32>(r, 6).abs(),
        _ => r.uni(0.1, 20.0) as f32,
    };
    let z = |r: &mut Rng| -> f32 {
        match r.below(5) {
            0 => 0.0,
            1 => rad * r.pick(&[-0.5f32, 0.5, -0.25, 0.75]),
            _ => rad * r.uni(-1.0, 1.0) as f32,
        }
    };
    let (mut z0, mut z1) = match r.below(5) {
        0 | 1 => (-rad, rad),
        2 => (-rad, z(r)),
        3 => (z(r), rad),
        _ => (z(r), z(r)),
    };
    if z0 > z1 {
        std::mem::swap(&mut z0, &mut z1);
    }
    if z1 - z0 < rad * 0.02 {
        z0 = -rad;
        z1 = rad;
    }
    let ph = match r.below(5) {
        0 | 1 => PI,
        2 => r.pick(&[0.0f32, PI / 2.0, -PI / 2.0, 1.0]),
        _ => r.uni(-3.0, 3.1) as f32,
    };
    Pat { r: rad, z0, z1, ph }
}
/// a point on the sphere; often at a place that matters for the patch
pub fn spot(r: &mut Rng, s: &Pat) -> [f32; 3] {
    let z = match r.below(10) {
        0 => s.z0,
        1 => s.z1,
        2 => s.r,
        3 => -s.r,
        4 => s.z0 + (s.z1 - s.z0) * r.unit() as f32,
        5 => 0.0,
        _ => s.r * r.uni(-1.0, 1.0) as f32,
    } as f64;
    let az = match r.below(10) {
        0 => s.ph as f64,
        1 => s.ph as f64 + r.uni(-0.01, 0.01),
        2 => r.pick(&[0.0, 0.5, 1.0, -0.5, -1.0]) * PI as f64,
        3 => PI as f64 + r.uni(-0.01, 0.01),
        _ => r.uni(-3.1415926, 3.1415926),
    };
    let rr = s.r as f64;
    let q = (rr * rr - z * z).max(0.0).sqrt();
    [(q * az.cos()) as f32, (q * az.sin()) as f32, z as f32]
}
fn random(c: &mut Ctx) {
    let s = patch(&mut c.rng);
    let r = &mut c.rng;
    let p = spot(r, &s);
    let q = spot(r, &s);
    let o: [f32; 3] = match r.below(8) {
        // on the chord between two points of the sphere, before, between, behind
        0 | 1 => {
            let k = r.uni(-2.0, 2.0) as f32;
            [p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1]), p[2] + k * (q[2] - p[2])]
        }
        2 => [0.0, 0.0, 0.0],
        3 => p.map(|x| x * r.uni(0.0, 0.95) as f32),
        4 => {
            // straight above one coordinate
            let mut z = p;
            let k = r.below(3) as usize;
            z[k] = r.uni(-3.0, 3.0) as f32 * s.r;
            z
        }
        5 => p,
        _ => [r.uni(-5.0, 5.0) as f32 * s.r, r.uni(-5.0, 5.0) as f32 * s.r, r.uni(-5.0, 5.0) as f32 * s.r],
    };
    let mut d = [q[0] - o[0], q[1] - o[1], q[2] - o[2]];
    match r.below(10) {
        0 => d = d.map(|x| -x),
        1 => d = [r.uni(-1.0, 1.0) as f32, r.uni(-1.0, 1.0) as f32, r.uni(-1.0, 1.0) as f32],
        2 => {
            let k = r.below(3) as usize;
            d = [0.0, 0.0, 0.0];
            d[k] = if o[k] > 0.0 { -1.0 } else { 1.0 };
        }
        _ => (),
    }
    let n = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt();
    if !(n > 1e-3 * s.r.min(1.0)) {
        d = [0.5, 0.0, 1.0];
    }
    let k = match r.below(4) {
        0 => 1.0 / (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt(),
        1 => 1.0,
        2 => 0.125,
        _ => r.uni(0.1, 8.0) as f32,
    } * stretch(r, 24) as f32;
    d = d.map(|x| x * k);
    let ext = match r.below(6) {
        0 => f32::INFINITY,
        1 | 2 => f32::MAX,
        3 => 1.0 / k,
        4 => r.uni(0.0, 2.0) as f32 / k,
        _ => r.uni(0.0, 30.0) as f32,
    };
    let t = query(c, s, mk(o, d, ext));
    // shorten the ray to just short of and just beyond the hit
    if let Some(t) = t {
        if t > 0.0 && c.prop == "C17" && c.rng.chance(1, 3) {
            for f in [0.99f32, 1.01] {
                query(c, s, mk(o, d, t * f));
            }
        }
    }
}
/// rays through points of the sphere with short coordinates, starting on it or some whole
/// steps before or behind it; many such points lie in a coordinate plane
fn whole(c: &mut Ctx) {
    let r = &mut c.rng;
    let (mut p, rad) = r.pick(&[
        ([1i64, 2, 2], 3i64),
        ([2, 3, 6], 7),
        ([0, 3, 4], 5),
        ([0, 5, 12], 13),
        ([0, 0, 2], 2),
        ([0, 0, 5], 5),
        ([4, 4, 7], 9),
        ([0, 6, 8], 10),
    ]);
    for i in (1..3).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    let p = p.map(|x| if r.bool() { x } else { -x });
    let d = loop {
        let d = [r.int(-3, 3), r.int(-3, 3), r.int(-3, 3)].map(|x| if r.chance(1, 4) { 0 } else { x });
        if d != [0, 0, 0] {
            break d;
        }
    };
    let k = if r.bool() { 0 } else { r.int(-3, 3) };
    let s = r.pick(&[1.0f32, 0.5, 0.25]);
    let ds = r.pick(&[1.0f32, 0.5, 2.0]);
    let o = [0, 1, 2].map(|i| (p[i] - k * d[i]) as f32 * s);
    let d = d.map(|x| x as f32 * s * ds);
    let n = rad as f32 * s;
    let (z0, z1) = match r.below(6) {
        0 => (-n, 0.5 * s),
        1 => (-0.5 * s, n),
        2 => (-n, p[2] as f32 * s),
        3 => (p[2] as f32 * s, n),
        _ => (-n, n),
    };
    let (z0, z1) = if z0 < z1 { (z0, z1) } else { (-n, n) };
    let ph = match r.below(4) {
        0 | 1 => PI,
        2 => r.pick(&[1.0f32, -1.0, 2.5, -2.5, 0.25]),
        _ => r.uni(-3.0, 3.1) as f32,
    };
    let ext = match r.below(4) {
        0 => f32::INFINITY,
        1 => r.int(0, 4) as f32 / ds,
        _ => f32::MAX,
    };
    query(c, Pat { r: n, z0, z1, ph }, mk(o, d, ext));
}
pub fn run(c: &mut Ctx) {
    for j in c.scn.clone() {
        if c.prop == "C17" || c.rng.chance(1, 4) {
            lattice(c, &j);
        }
    }
    for _ in 0..c.count {
        random(c);
        whole(c);
    }
}
