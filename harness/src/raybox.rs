//! C15, C16: rays against boxes.
use crate::out::{guard, Ev};
use crate::rng::{Rng, F};
use crate::xf::{coord, e3, stretch};
use crate::Ctx;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{IntersectionResult, IntersectsRay};
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::math::vector::{Point3f, Vector3f};

/// JSON of a full intersection answer
pub fn full(r: &Option<IntersectionResult>) -> String {
    match r {
        None => "{\"hit\":false}".to_string(),
        Some(x) => {
            let s = &x.surface_interaction;
            format!(
                "{{\"hit\":true,\"t\":{},\"p\":{},\"n\":{},\"uv\":{},\"du\":{},\"dv\":{}}}",
                x.t_ray.enc(), e3(&s.p.vec), e3(&s.n.vec), e3(&s.uv.vec), e3(&s.dpdu.vec), e3(&s.dpdv.vec)
            )
        }
    }
}
pub fn ray_ev(e: Ev, r: &Rayf) -> Ev {
    e.raw("org", &e3(&r.origin.vec)).raw("d", &e3(&r.direction.vec)).f("tmax", r.tmax)
}
fn query(c: &mut Ctx, b: Bbox3, r: Rayf) {
    let o = guard(|| {
        let i = b.intersect_ray(r);
        let t = match i {
            Some((a, z)) => format!("\"hit\":true,\"t0\":{},\"t1\":{}", a.enc(), z.enc()),
            None => "\"hit\":false".to_string(),
        };
        if c.prop == "C15" {
            format!("{{{},\"yes\":{}}}", t, b.do_intersect(r))
        } else {
            format!("{{\"yes\":{},\"full\":{}}}", b.do_intersect(r), full(&IntersectsRay::intersect(&b, r)))
        }
    });
    let e = ray_ev(Ev::new("rb").raw("lo", &e3(&b.pmin.vec)).raw("hi", &e3(&b.pmax.vec)), &r).b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
fn mk(o: [f32; 3], d: [f32; 3], t: f32) -> Rayf {
    Ray::new(Point3f::from(o), Vector3f::from(d), t)
}
fn bx(p: [f32; 3], q: [f32; 3]) -> Bbox3 {
    Bbox3::new(Point3f::from(p), Point3f::from(q))
}
fn zero(r: &mut Rng) -> f32 {
    if r.bool() { 0.0 } else { -0.0 }
}
fn lattice(c: &mut Ctx, j: &crate::out::J) {
    let g = |k: &str| j.get(k).ints();
    let (o, d) = (g("o"), g("d"));
    let b: Vec<Vec<i64>> = j.get("b").arr().iter().map(|x| x.ints()).collect();
    // permute and reflect axes, shift, scale by a power of two: all exact
    let rot = c.rng.below(3) as usize;
    let fl = [c.rng.bool(), c.rng.bool(), c.rng.bool()];
    let sh = [c.rng.int(-3, 3), c.rng.int(-3, 3), c.rng.int(-3, 3)];
    let s = c.rng.pick(&[1.0f32, 0.25, 8.0]);
    let pt = |v: &[i64]| -> [f32; 3] {
        let mut r = [0f32; 3];
        for k in 0..3 {
            let x = v[(k + rot) % 3];
            r[k] = ((if fl[k] { -x } else { x }) + sh[k]) as f32 * s;
        }
        r
    };
    let mut dir = [0f32; 3];
    for k in 0..3 {
        let x = d[(k + rot) % 3];
        dir[k] = if x == 0 { zero(&mut c.rng) } else { (if fl[k] { -x } else { x }) as f32 * s };
    }
    let ext = match j.get("x").int() {
        100 => c.rng.pick(&[100.0, f32::MAX, f32::INFINITY]),
        x => x as f32,
    };
    let (p, q, org) = (pt(&b[0]), pt(&b[1]), pt(&o));
    query(c, bx(p, q), mk(org, dir, ext));
}
/// a point in the box: inside, on a face, edge or corner
fn at_box(r: &mut Rng, b: &Bbox3) -> [f32; 3] {
    let mut p = [0f32; 3];
    for k in 0..3 {
        let (lo, hi) = (b.pmin[k], b.pmax[k]);
        p[k] = match r.below(4) {
            0 => lo,
            1 => hi,
            _ => (lo + (hi - lo) * r.unit() as f32).clamp(lo, hi),
        };
    }
    p
}
fn random(c: &mut Ctx) {
    let r = &mut c.rng;
    let p = [coord(r), coord(r), coord(r)];
    let mut q: [f32; 3] = [coord(r), coord(r), coord(r)];
    if r.chance(1, 8) {
        q[r.below(3) as usize] = p[0];
    }
    if r.chance(1, 10) {
        let k = r.below(3) as usize;
        q[k] = p[k];
    }
    let b = bx(p, q);
    let target = at_box(r, &b);
    let mut o: [f32; 3] = match r.below(6) {
        0 => at_box(r, &b),
        1 => {
            // strictly inside
            let mut z = [0f32; 3];
            for k in 0..3 {
                z[k] = b.pmin[k] + (b.pmax[k] - b.pmin[k]) * r.uni(0.1, 0.9) as f32;
            }
            z
        }
        _ => [coord(r), coord(r), coord(r)],
    };
    let mut d: [f32; 3] = [target[0] - o[0], target[1] - o[1], target[2] - o[2]];
    match r.below(8) {
        0 => d = [coord(r), coord(r), coord(r)],
        1 => d = [-d[0], -d[1], -d[2]],
        2 => {
            // parallel to an axis plane, origin inside or on that slab
            let k = r.below(3) as usize;
            d[k] = zero(r);
            o[k] = target[k];
        }
        3 => {
            let k = r.below(3) as usize;
            for i in 0..3 {
                if i != k {
                    d[i] = zero(r);
                    o[i] = target[i];
                }
            }
        }
        4 => {
            // powers of two
            for k in 0..3 {
                d[k] = r.pick(&[1.0, -2.0, 0.5, 0.0, -0.0]);
            }
        }
        _ => (),
    }
    if d.iter().all(|x| *x == 0.0) || d.iter().any(|x| *x != 0.0 && x.abs() < 1e-12) {
        d = [1.0, 0.0, zero(r)];
    }
    let scale = r.pick(&[1.0f32, 1.0, 0.125, 3.0]) * stretch(r, 30) as f32;
    d = d.map(|x| x * scale);
    let ext = match r.below(6) {
        0 => f32::INFINITY,
        1 | 2 => f32::MAX,
        3 => 1.0 / scale,
        4 => r.uni(0.0, 2.0) as f32 / scale,
        _ => r.uni(0.0, 30.0) as f32,
    };
    query(c, b, mk(o, d, ext));
    // stop just before, at, and just after the entry
    let first = guard(|| b.intersect_ray(mk(o, d, f32::MAX))).flatten();
    if let Some((t, _)) = first {
        if t > 0.0 && t < 1e30 && c.rng.bool() {
            for f in [0.99f32, 1.0, 1.01] {
                query(c, b, mk(o, d, t * f));
            }
        }
    }
}
pub fn run(c: &mut Ctx) {
    for j in c.scn.clone() {
        lattice(c, &j);
    }
    for _ in 0..c.count {
        random(c);
    }
    for _ in 0..4 {
        let r = &mut c.rng;
        let (o, d) = ([coord(r), coord(r), coord(r)], [1.0, coord(r), zero(r)]);
        query(c, Bbox3::default(), mk(o, d, f32::MAX));
    }
    // the intersection of disjoint boxes: empty in one coordinate or two
    for _ in 0..c.count / 8 + 4 {
        let r = &mut c.rng;
        let lo: Vec<f32> = (0..3).map(|_| r.int(-8, 4) as f32).collect();
        let hi: Vec<f32> = lo.iter().map(|x| x + r.int(1, 6) as f32).collect();
        let mut b = Bbox3::new(Point3f::new(lo[0], lo[1], lo[2]), Point3f::new(hi[0], hi[1], hi[2]));
        let k = r.below(3) as usize;
        for i in k..k + 1 + r.below(2) as usize {
            b.pmin[i % 3] = hi[i % 3];
            b.pmax[i % 3] = lo[i % 3];
        }
        let t: Vec<f32> = (0..3).map(|i| (lo[i] as f64 + (hi[i] - lo[i]) as f64 * r.unit()) as f32).collect();
        let o = [coord(r), coord(r), coord(r)];
        let d = if r.bool() { [t[0] - o[0], t[1] - o[1], t[2] - o[2]] } else { [1.0, coord(r), zero(r)] };
        query(c, b, mk(o, d, f32::MAX));
    }
}
