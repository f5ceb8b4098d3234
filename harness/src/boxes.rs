//! C13: box programs.
use crate::out::{guard, Ev};
use crate::rng::{self, Rng, F};
use crate::xf::{coord, e3};
use crate::Ctx;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::Bounded3;
use scarlet::math::vector::Point3f;

pub fn eb(b: &Bbox3) -> String {
    format!("{{\"lo\":{},\"hi\":{}}}", e3(&b.pmin.vec), e3(&b.pmax.vec))
}
struct M {
    r: Vec<Bbox3>,
    ok: Vec<bool>, // non-empty
}
fn put(c: &mut Ctx, e: Ev, o: Option<String>) {
    let e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
fn near(r: &mut Rng, x: f32) -> f32 {
    let b = x.to_bits();
    match r.below(3) {
        0 => x,
        1 => f32::from_bits(b.wrapping_add(1)),
        _ if b & 0x7fff_ffff != 0 => f32::from_bits(b - 1),
        _ => -f32::from_bits(1),
    }
}
impl M {
    fn new(c: &mut Ctx) -> Self {
        c.out.emit(Ev::new("begin").b("panic", false));
        M { r: vec![], ok: vec![] }
    }
    fn push(&mut self, c: &mut Ctx, e: Ev, b: Option<Bbox3>) {
        put(c, e, b.as_ref().map(eb));
        let b = b.unwrap_or(Bbox3::default());
        self.ok.push((0..3).all(|i| b.pmin[i] <= b.pmax[i]));
        self.r.push(b);
    }
    fn mk(&mut self, c: &mut Ctx, p: [f32; 3], q: [f32; 3]) {
        let b = guard(|| Bbox3::new(Point3f::from(p), Point3f::from(q)));
        self.push(c, Ev::new("new").raw("p", &e3(&p)).raw("q", &e3(&q)), b);
    }
    fn dflt(&mut self, c: &mut Ctx) {
        let b = guard(Bbox3::default);
        self.push(c, Ev::new("dflt"), b);
    }
    fn ab(k: &str, a: usize, b: usize) -> Ev {
        Ev::new(k).i("a", a as i64 + 1).i("b", b as i64 + 1)
    }
    fn union(&mut self, c: &mut Ctx, a: usize, b: usize) {
        let (x, y) = (self.r[a], self.r[b]);
        let k = c.rng.below(3);
        let o = guard(|| match k {
            0 => x.union(&y),
            1 => x + y,
            _ => {
                let mut z = x;
                z += y;
                z
            }
        });
        self.push(c, Self::ab("union", a, b), o);
    }
    fn inter(&mut self, c: &mut Ctx, a: usize, b: usize) {
        let (x, y) = (self.r[a], self.r[b]);
        let o = guard(|| x.intersect(&y));
        self.push(c, Self::ab("inter", a, b), o);
    }
    /// a point: on, just off, inside or away from the box
    fn query(&self, c: &mut Ctx, a: usize) {
        let b = self.r[a];
        let mut p = [0f32; 3];
        for i in 0..3 {
            let r = &mut c.rng;
            let (lo, hi) = (b.pmin[i], b.pmax[i]);
            p[i] = match r.below(6) {
                0 => near(r, lo),
                1 => near(r, hi),
                2 | 3 if lo < hi && (hi - lo) < 1e30 => lo + (hi - lo) * r.unit() as f32,
                4 => coord(r),
                _ => lo,
            };
            if !p[i].fin() {
                p[i] = 0.0;
            }
        }
        let o = guard(|| b.inside(Point3f::from(p))).map(|x| format!("{{\"in\":{}}}", x));
        put(c, Ev::new("in").i("a", a as i64 + 1).raw("p", &e3(&p)), o);
    }
    fn overlap(&self, c: &mut Ctx, a: usize, b: usize) {
        let o = guard(|| self.r[a].overlaps(&self.r[b])).map(|x| format!("{{\"ov\":{}}}", x));
        put(c, Self::ab("ov", a, b), o);
    }
    fn meas(&self, c: &mut Ctx, a: usize) {
        if !self.ok[a] {
            return;
        }
        let b = self.r[a];
        let o = guard(|| {
            let ((lo, hi), ax) = b.max_extent();
            format!(
                "{{\"diag\":{},\"mid\":{},\"elo\":{},\"ehi\":{},\"axis\":{},\"x0\":{},\"x1\":{},\"y0\":{},\"y1\":{},\"z0\":{},\"z1\":{},\"bb\":{}}}",
                e3(&b.diagonal().vec), e3(&b.center().vec), lo.enc(), hi.enc(), ax,
                b.xmin().enc(), b.xmax().enc(), b.ymin().enc(), b.ymax().enc(), b.zmin().enc(), b.zmax().enc(),
                eb(&b.bbox())
            )
        });
        put(c, Ev::new("meas").i("a", a as i64 + 1), o);
    }
    fn finish(&self, c: &mut Ctx) {
        for a in 0..self.r.len() {
            self.query(c, a);
            self.query(c, a);
            self.meas(c, a);
            let b = c.rng.below(self.r.len() as u64) as usize;
            self.overlap(c, a, b);
        }
    }
}
fn corner(c: &mut Ctx, prev: &[f32; 3], wild: bool) -> [f32; 3] {
    let mut p = [0f32; 3];
    for i in 0..3 {
        let r = &mut c.rng;
        p[i] = match r.below(8) {
            0 => prev[i],
            1 => near(r, prev[i]),
            2 if wild => rng::mid::<f32>(r, 90),
            _ => coord(r),
        };
        if !p[i].fin() {
            p[i] = 1.0;
        }
    }
    p
}
pub fn run(c: &mut Ctx) {
    let step = if c.count < 200 { 2 } else { 1 };
    for (n, j) in c.scn.clone().iter().enumerate() {
        if n % step != 0 {
            continue;
        }
        let mut m = M::new(c);
        // any spacing of the lattice, with a coordinate permutation
        let d = c.rng.pick(&[1.0f32, 0.25, 3.0, 1.0e-3]);
        let rot = c.rng.below(3) as usize;
        for o in j.get("bp").arr() {
            let f = |k: &str| {
                let v = o.get(k).ints();
                [v[rot] as f32 * d, v[(rot + 1) % 3] as f32 * d - d, v[(rot + 2) % 3] as f32 * d - 2.0 * d]
            };
            match o.get("op").str() {
                "new" => {
                    let (p, q) = (f("p"), f("q"));
                    m.mk(c, p, q)
                }
                "dflt" => m.dflt(c),
                "union" => m.union(c, 0, 1),
                _ => m.inter(c, 0, 1),
            }
        }
        m.finish(c);
    }
    for _ in 0..c.count {
        let mut m = M::new(c);
        let mut prev = [0f32; 3];
        let wild = c.rng.chance(1, 4);
        for _ in 0..c.rng.int(2, 4) {
            let p = corner(c, &prev, wild);
            let q = corner(c, &p, wild);
            m.mk(c, p, q);
            prev = q;
        }
        if c.rng.bool() {
            m.dflt(c);
        }
        for _ in 0..c.rng.int(1, 5) {
            let n = m.r.len() as u64;
            let (a, b) = (c.rng.below(n) as usize, c.rng.below(n) as usize);
            // an empty box other than the default one has no canonical bounds
            let dflt = |x: &Bbox3| x.pmin[0] == f32::MAX;
            let plain = |m: &M, i: usize| m.ok[i] || dflt(&m.r[i]);
            if c.rng.chance(2, 3) && plain(&m, a) && plain(&m, b) {
                m.union(c, a, b);
            } else {
                m.inter(c, a, b);
            }
        }
        m.finish(c);
    }
}
