//! C21, C22: thin-lens camera rays and square-to-disk maps.
use crate::mats::enc_m;
use crate::out::{guard, Ev, J};
use crate::rng::{Rng, F};
use crate::xf::{angle, build, con, e3, look, Con};
use crate::Ctx;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::transform::Transformf;
use scarlet::math::vector::Point2f;

fn disk(c: &mut Ctx, x: f32, y: f32) {
    for m in ["polar", "conc"] {
        let o = guard(|| {
            let p = Point2f::new(x, y);
            let q = if m == "polar" { uniform_sample_disk(p) } else { concentric_sample_disk(p) };
            e3(&[q.x(), q.y()])
        });
        let e = Ev::new("disk").s("m", m).raw("x", &e3(&[x, y])).b("panic", o.is_none());
        c.out.emit(match o {
            Some(t) => e.raw("o", &t),
            None => e,
        });
    }
}
fn up(x: f32) -> f32 {
    if x > 0.0 && x < 1.0 { f32::from_bits(x.to_bits() + 1) } else { x }
}
fn down(x: f32) -> f32 {
    if x > 0.0 { f32::from_bits(x.to_bits() - 1) } else { x }
}
/// a number in [0, 1] with a taste for the edges, the middle and tiny values
fn unit(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => r.int(0, 16) as f32 / 16.0,
        4 => up(0.5),
        5 => down(0.5),
        6 => 0.5 + r.uni(-1e-4, 1e-4) as f32,
        7 => r.pick(&[f32::from_bits(1), 1e-38, 1e-20, 1e-7]),
        8 => down(1.0),
        _ => r.unit() as f32,
    }
    .min(1.0)
}
fn pair(r: &mut Rng) -> (f32, f32) {
    let x = unit(r);
    let y = match r.below(8) {
        0 => x,
        1 => 1.0 - x,
        2 => up(x),
        // near the diagonals
        3 | 4 => {
            let e = r.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 1e-2]) * r.uni(-1.0, 1.0);
            let t = 0.5 + (x as f64 - 0.5) * (1.0 + e);
            (if r.bool() { t } else { 1.0 - t }).clamp(0.0, 1.0) as f32
        }
        _ => unit(r),
    };
    (x, y)
}
pub fn run_disk(c: &mut Ctx) {
    for j in c.scn.clone() {
        let n = j.get("n").int() as f32;
        disk(c, j.get("i").int() as f32 / n, j.get("k").int() as f32 / n);
    }
    for _ in 0..c.count {
        let (x, y) = pair(&mut c.rng);
        disk(c, x, y);
    }
}

fn view(r: &mut Rng) -> Transformf {
    match r.below(8) {
        0 => Transformf::identity(),
        1 | 2 | 3 => build(&Con { c: "look", p: look::<f32>(r) }),
        4 => build(&con::<f32>(r, 1, false)),
        5 => build(&Con { c: "ry", p: vec![angle(r)] }) * build(&con::<f32>(r, 1, false)),
        6 => build(&con::<f32>(r, 6, false)),
        // not rigid
        _ => build(&con::<f32>(r, 2, false)) * build(&con::<f32>(r, 1, false)),
    }
}
struct Lens {
    fd: f32,
    fov: f32,
    fl: f32,
    lr: f32,
    ar: f32,
}
fn shot(c: &mut Ctx, k: &Lens, v: Transformf, pf: (f32, f32), pl: (f32, f32)) {
    let o = guard(|| {
        let cam = ThinLensCamera::new(v, k.fd, k.fov, k.fl, k.lr, k.ar);
        let r = cam.generate_ray(CameraSample::new(Point2f::new(pf.0, pf.1), Point2f::new(pl.0, pl.1)));
        format!("{{\"org\":{},\"d\":{},\"tmax\":{}}}", e3(&r.origin.vec), e3(&r.direction.vec), r.tmax.enc())
    });
    let e = Ev::new("cam").f("fd", k.fd).f("fov", k.fov).f("fl", k.fl).f("lr", k.lr).f("ar", k.ar)
        .raw("i", &enc_m(&v.inverse_matrix().data))
        .raw("pf", &e3(&[pf.0, pf.1])).raw("pl", &e3(&[pl.0, pl.1])).b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
fn line(c: &mut Ctx, j: &J) {
    let g = |k: &str| j.get(k).int() as f32;
    let k = Lens { fd: g("fd"), fov: 2.0 * (g("h") / 2.0).atan(), fl: g("l") / 2.0, lr: g("r") / 4.0, ar: g("a") / 2.0 };
    let v = view(&mut c.rng);
    let pl = pair(&mut c.rng);
    shot(c, &k, v, (g("px") / 8.0, g("py") / 8.0), pl);
}
fn random(c: &mut Ctx) {
    let r = &mut c.rng;
    let fl = match r.below(4) {
        0 => r.pick(&[0.05, 0.018, 0.3, 25.0]),
        1 => r.uni(0.01, 2.0) as f32,
        2 => r.uni(-8.0, 4.0).exp() as f32,
        _ => r.int(1, 3) as f32,
    };
    let fd = fl * match r.below(4) {
        0 | 3 => r.uni(1.1, 2.0),
        1 => r.uni(2.0, 50.0),
        _ => r.pick(&[1000.0, 1.01, 150.0, 20000.0]),
    } as f32;
    // distances and apertures that put the point of focus near unit distance
    let close = r.chance(1, 5);
    let (fd, fl) = if close {
        let d = 1.0 + r.pick(&[0.0, 1e-6, 1e-4, 1e-3, 1e-2]) * r.uni(-1.0, 1.0);
        (d as f32, r.uni(0.02, 0.9) as f32)
    } else {
        (fd, fl)
    };
    let k = Lens {
        fd,
        fl,
        fov: if close { r.pick(&[0.01, 0.02, 0.1, 1.0]) } else if r.chance(1, 4) { std::f32::consts::FRAC_PI_2 } else if r.chance(1, 6) { r.pick(&[0.01, 0.05, 3.0, 3.1]) } else { r.uni(0.1, 2.8) as f32 },
        lr: match r.below(4) {
            _ if close => r.pick(&[0.0, 1e-3, 0.02, 0.1]),
            0 => 0.0,
            1 => fl * 0.5,
            _ => r.uni(0.0, 2.0) as f32,
        },
        ar: match r.below(4) {
            0 => 1.0,
            1 => r.pick(&[16.0 / 9.0, 9.0 / 16.0, 0.1, 10.0]),
            _ => r.uni(0.3, 3.0) as f32,
        },
    };
    let v = view(r);
    let pf = pair(r);
    for _ in 0..3 {
        let pl = pair(&mut c.rng);
        shot(c, &k, v, pf, pl);
    }
    let pf = pair(&mut c.rng);
    shot(c, &k, v, pf, (0.5, 0.5));
}
pub fn run(c: &mut Ctx) {
    for j in c.scn.clone() {
        if j.has("px") {
            line(c, &j);
        }
    }
    for _ in 0..c.count {
        random(c);
    }
}
