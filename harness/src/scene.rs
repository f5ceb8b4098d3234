//! C19, C20: scenes of boxes, spheres, lists and placed objects.
use crate::out::{guard, list, Ev, J};
use crate::mats::enc_m;
use crate::raybox::{full, ray_ev};
use crate::rng::Rng;
use crate::sphere::{patch, spot, Pat};
use crate::xf::{build, con, coord, e3, stretch};
use crate::Ctx;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::{Ray, Rayf};
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::Transformf;
use scarlet::math::vector::{Point3f, Vector3f};
use std::f32::consts::PI;

/// a handle that is itself a primitive, so that graphs can be nested freely
struct Any(PrimitiveHandle);
impl Bounded3 for Any {
    fn bbox(&self) -> Bbox3 {
        self.0.bbox()
    }
}
impl IntersectsRay for Any {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.0.do_intersect(ray)
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        self.0.intersect(ray)
    }
}
impl Primitive for Any {}

#[derive(Clone)]
enum Node {
    Bx(Bbox3),
    Sp(Pat),
    SpAt(Pat, [f32; 3]),
    List(Vec<usize>),
    Xf(usize, Transformf),
}
type G = Vec<Node>;
fn sphere(s: &Pat) -> Sphere {
    Sphere::new(s.r, s.z0, s.z1, s.ph)
}
fn make(g: &G, n: usize) -> PrimitiveHandle {
    match &g[n] {
        Node::Bx(b) => alloc_primitive(*b),
        Node::Sp(s) => alloc_primitive(sphere(s)),
        Node::SpAt(s, p) => alloc_primitive(TransformedPrimitive::new(sphere(s), Transformf::translate(Vector3f::from(*p)))),
        Node::List(m) => alloc_primitive(make_list(g, m)),
        Node::Xf(c, t) => match &g[*c] {
            Node::Bx(b) => alloc_primitive(TransformedPrimitive::new(*b, *t)),
            Node::Sp(s) => alloc_primitive(TransformedPrimitive::new(sphere(s), *t)),
            Node::List(m) => alloc_primitive(TransformedPrimitive::new(make_list(g, m), *t)),
            _ => alloc_primitive(TransformedPrimitive::new(Any(make(g, *c)), *t)),
        },
    }
}
fn make_list(g: &G, m: &[usize]) -> PrimitiveList {
    let mut l = if m.len() % 2 == 0 { PrimitiveList::new() } else { PrimitiveList::default() };
    for k in m {
        match &g[*k] {
            Node::Bx(b) => l.add_primitive(*b),
            Node::Sp(s) => l.add_primitive(sphere(s)),
            _ => l.add_primitive(Any(make(g, *k))),
        }
    }
    l
}
thread_local! {
    /// the lists under construction: one object per list, filled as the history goes
    static LIVE: std::cell::RefCell<std::collections::HashMap<usize, PrimitiveList>> = Default::default();
}
fn with<R>(g: &G, n: usize, f: impl FnOnce(&dyn Primitive) -> R) -> R {
    LIVE.with(|m| match m.borrow().get(&n) {
        Some(p) => f(p),
        None => f(&*make(g, n)),
    })
}
fn ask(c: &mut Ctx, g: &G, n: usize, r: Rayf, line: bool) {
    let want = if c.prop == "C19" { matches!(g[n], Node::List(_)) } else { matches!(g[n], Node::Xf(..)) };
    if !want {
        return;
    }
    let e = ray_ev(Ev::new("ask").i("n", n as i64 + 1).b("line", line), &r);
    // what the parts answer
    let (kr, ids): (Rayf, Vec<usize>) = match &g[n] {
        Node::List(m) => {
            let mut v: Vec<usize> = m.clone();
            let d = c.rng.below(g.len() as u64) as usize;
            v.push(d); // usually not a member
            v.sort();
            v.dedup();
            v.retain(|k| *k != n);
            (r, v)
        }
        Node::Xf(k, t) => match guard(|| t.map_inverse(r)) {
            Some(q) => (q, vec![*k]),
            None => {
                c.out.emit(e.b("panic", true));
                return;
            }
        },
        _ => unreachable!(),
    };
    let mut parts = vec![];
    for k in ids {
        match guard(|| {
            let p = make(g, k);
            format!("{{\"id\":{},\"yes\":{},\"full\":{}}}", k + 1, p.do_intersect(kr), full(&p.intersect(kr)))
        }) {
            Some(s) => parts.push(s),
            None => {
                c.out.emit(e.b("panic", true));
                return;
            }
        }
    }
    let mut e = e.raw("kids", &list(parts.into_iter()));
    if let Node::Xf(..) = g[n] {
        e = e.raw("korg", &e3(&kr.origin.vec)).raw("kd", &e3(&kr.direction.vec));
    }
    let o = guard(|| with(g, n, |p| format!("{{\"yes\":{},\"full\":{}}}", p.do_intersect(r), full(&p.intersect(r)))));
    e = e.b("panic", o.is_none());
    if let Some(s) = o {
        let b = guard(|| with(g, n, |p| p.bbox()));
        if let Some(b) = b {
            e = e.raw("lo", &e3(&b.pmin.vec)).raw("hi", &e3(&b.pmax.vec));
        }
        e = e.raw("o", &s);
    }
    c.out.emit(e);
}
fn bounds(c: &mut Ctx, g: &G, n: usize) {
    let ids: Vec<usize> = match (&g[n], c.prop.as_str()) {
        (Node::List(m), "C19") => {
            let mut v = m.clone();
            v.sort();
            v.dedup();
            v
        }
        (Node::Xf(k, _), "C20") => vec![*k],
        _ => return,
    };
    let bb = |k: usize| guard(|| make(g, k).bbox());
    let mut parts = vec![];
    let mut panic = false;
    for k in ids {
        match bb(k) {
            Some(b) => parts.push(format!("{{\"id\":{},\"lo\":{},\"hi\":{}}}", k + 1, e3(&b.pmin.vec), e3(&b.pmax.vec))),
            None => panic = true,
        }
    }
    let o = guard(|| {
        with(g, n, |p| {
            let b = p.bbox();
            let six = [p.xmin(), p.ymin(), p.zmin(), p.xmax(), p.ymax(), p.zmax()];
            format!("{{\"lo\":{},\"hi\":{},\"six\":{}}}", e3(&b.pmin.vec), e3(&b.pmax.vec), e3(&six))
        })
    });
    let e = Ev::new("bb").i("n", n as i64 + 1).raw("kids", &list(parts.into_iter())).b("panic", panic || o.is_none());
    c.out.emit(match o {
        Some(s) if !panic => e.raw("o", &s),
        _ => e,
    });
}
fn leaf(c: &mut Ctx, g: &mut G, n: Node, par: &str) {
    g.push(n);
    c.out.emit(Ev::new("leaf").raw("par", par));
}
fn xf(c: &mut Ctx, g: &mut G, of: usize, t: Transformf, s: i64) {
    g.push(Node::Xf(of, t));
    c.out.emit(Ev::new("xf").i("of", of as i64 + 1).i("s", s).raw("m", &enc_m(&t.matrix().data)).raw("i", &enc_m(&t.inverse_matrix().data)));
}
fn new_list(c: &mut Ctx, g: &mut G) {
    g.push(Node::List(vec![]));
    LIVE.with(|m| m.borrow_mut().insert(g.len() - 1, make_list(g, &[])));
    c.out.emit(Ev::new("list"));
}
fn add(c: &mut Ctx, g: &mut G, l: usize, m: usize) {
    if let Node::List(v) = &mut g[l] {
        v.push(m);
    }
    LIVE.with(|live| {
        let mut live = live.borrow_mut();
        let p = live.get_mut(&l).unwrap();
        match &g[m] {
            Node::Bx(b) => p.add_primitive(*b),
            Node::Sp(s) => p.add_primitive(sphere(s)),
            _ => p.add_primitive(Any(make(g, m))),
        }
        // lists that contain this one hold it by value: build them anew
        for k in 0..g.len() {
            if let Node::List(v) = &g[k] {
                if k != l && below(g, k).contains(&l) {
                    live.insert(k, make_list(g, v));
                }
            }
        }
    });
    c.out.emit(Ev::new("add").i("l", l as i64 + 1).i("m", m as i64 + 1));
}
/// a model history, with parameters realised along a coordinate axis
fn line(c: &mut Ctx, j: &J) {
    c.out.emit(Ev::new("begin"));
    LIVE.with(|m| m.borrow_mut().clear());
    let mut g: G = vec![];
    let ax = c.rng.below(3) as usize;
    let s = c.rng.pick(&[1.0f32, 0.5, 4.0]);
    let along = |t: f32| -> [f32; 3] {
        let mut p = [0.0; 3];
        p[ax] = t * s;
        p
    };
    let mut d = [0f32; 3];
    d[ax] = s;
    let asks = |c: &mut Ctx, g: &G, last: bool| {
        for n in 0..g.len() {
            let exts: &[f32] = if last { &[1.0, 2.0, 3.0, f32::MAX] } else { &[9.0] };
            for x in exts {
                if last && c.rng.bool() {
                    continue;
                }
                ask(c, g, n, Ray::new(Point3f::from([0.0f32; 3]), Vector3f::from(d), *x), true);
            }
        }
    };
    let prog = j.get("prog").arr().to_vec();
    for (i, op) in prog.iter().enumerate() {
        match op.get("op").str() {
            "leaf" => {
                let a = op.get("a").ints();
                let n = if a.len() == 1 {
                    let mut p = [-1.0f32; 3];
                    let mut q = [1.0f32; 3];
                    p[ax] = a[0] as f32 * s;
                    q[ax] = p[ax];
                    Node::Bx(Bbox3::new(Point3f::from(p), Point3f::from(q)))
                } else {
                    let r = (a[0] - a[1]).abs() as f32 * 0.5 * s;
                    let pat = Pat { r, z0: -r, z1: r, ph: PI };
                    Node::SpAt(pat, along((a[0] + a[1]) as f32 * 0.5))
                };
                leaf(c, &mut g, n, &list(a.iter().map(|x| x.to_string())));
            }
            "list" => new_list(c, &mut g),
            "xf" => {
                let sh = op.get("s").int();
                let t = Transformf::translate(Vector3f::from(along(sh as f32)));
                xf(c, &mut g, op.get("of").int() as usize - 1, t, sh);
            }
            "add" => {
                add(c, &mut g, op.get("l").int() as usize - 1, op.get("m").int() as usize - 1);
                if i + 1 < prog.len() {
                    asks(c, &g, false);
                }
            }
            _ => panic!("op"),
        }
    }
    asks(c, &g, true);
    for n in 0..g.len() {
        bounds(c, &g, n);
    }
}
fn some_box(r: &mut Rng) -> Bbox3 {
    let p = [coord::<f32>(r), coord(r), coord(r)];
    let mut q = [p[0] + r.uni(0.2, 6.0) as f32, p[1] + r.uni(0.2, 6.0) as f32, p[2] + r.uni(0.2, 6.0) as f32];
    // without thickness in one coordinate, two or all
    if r.chance(1, 4) {
        let (k, n) = (r.below(3) as usize, 1 + r.below(3) as usize);
        for i in k..k + n {
            q[i % 3] = p[i % 3];
        }
    }
    Bbox3::new(Point3f::from(p), Point3f::from(q))
}
pub fn placement(r: &mut Rng) -> Transformf {
    let n = 1 + r.below(3);
    let mut t: Option<Transformf> = None;
    for _ in 0..n {
        let k = r.pick(&[1, 1, 2, 3, 4, 5, 6, 7, 10]);
        let x = build(&con::<f32>(r, k, false));
        t = Some(match t {
            None => x,
            Some(y) => y * x,
        });
    }
    t.unwrap()
}
/// a point near the surface of something below n, in n's own space
fn near(r: &mut Rng, g: &G, n: usize) -> [f32; 3] {
    match &g[n] {
        Node::Bx(b) => {
            let mut p = [0f32; 3];
            for k in 0..3 {
                p[k] = b.pmin[k] + (b.pmax[k] - b.pmin[k]) * r.uni(0.05, 0.95) as f32;
            }
            p
        }
        Node::Sp(s) => spot(r, s),
        Node::SpAt(s, c) => {
            let p = spot(r, s);
            [p[0] + c[0], p[1] + c[1], p[2] + c[2]]
        }
        Node::List(m) => {
            if m.is_empty() {
                return [0.0; 3];
            }
            let k = r.pick(m);
            near(r, g, k)
        }
        Node::Xf(k, t) => {
            let p = near(r, g, *k);
            let q = t.map(Point3f::from(p));
            [q[0], q[1], q[2]]
        }
    }
}
fn random(c: &mut Ctx) {
    c.out.emit(Ev::new("begin"));
    LIVE.with(|m| m.borrow_mut().clear());
    let mut g: G = vec![];
    let n = 4 + c.rng.below(8) as usize;
    for _ in 0..n {
        match c.rng.below(8) {
            0 | 1 => {
                let b = some_box(&mut c.rng);
                leaf(c, &mut g, Node::Bx(b), "[]");
            }
            2 | 3 => {
                let s = patch(&mut c.rng);
                leaf(c, &mut g, Node::Sp(s), "[]");
            }
            4 => new_list(c, &mut g),
            _ if !g.is_empty() => {
                let of = c.rng.below(g.len() as u64) as usize;
                if let Some(t) = guard(|| placement(&mut c.rng)) {
                    let ok = t.matrix().data.iter().chain(t.inverse_matrix().data.iter()).all(|r| r.iter().all(|x| x.abs() < 1e4));
                    if ok {
                        xf(c, &mut g, of, t, 0);
                    }
                }
            }
            _ => (),
        }
    }
    // the whole of it in a list, filled step by step
    new_list(c, &mut g);
    let top = g.len() - 1;
    let mut order: Vec<usize> = (0..top).collect();
    for i in (1..order.len()).rev() {
        let j = c.rng.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    for k in order {
        let l = if c.rng.bool() {
            top
        } else {
            // another list, when that makes no cycle
            match (0..top).find(|l| matches!(g[*l], Node::List(_)) && !below(&g, k).contains(l)) {
                Some(l) => l,
                None => top,
            }
        };
        add(c, &mut g, l, k);
        if l == top || c.rng.bool() {
            for _ in 0..2 {
                shoot(c, &g, l);
            }
        }
    }
    for i in 0..g.len() {
        for _ in 0..2 {
            shoot(c, &g, i);
        }
        bounds(c, &g, i);
    }
}
/// a long list: every member has to count, wherever it stands in the list
fn crowd(c: &mut Ctx) {
    c.out.emit(Ev::new("begin"));
    LIVE.with(|m| m.borrow_mut().clear());
    let mut g: G = vec![];
    let n = c.rng.pick(&[9, 16, 17, 20, 33, 65, 70, 129]);
    for k in 0..n {
        // apart from each other, in no order
        let q = [coord::<f32>(&mut c.rng) + 8.0 * (k % 5) as f32, 8.0 * ((k * 7) % 11) as f32, 8.0 * ((k * 5) % 13) as f32];
        if c.rng.below(3) > 0 {
            let h = [c.rng.uni(0.1, 2.0) as f32, c.rng.uni(0.1, 2.0) as f32, c.rng.uni(0.1, 2.0) as f32];
            let b = Bbox3::new(Point3f::from([q[0] - h[0], q[1] - h[1], q[2] - h[2]]), Point3f::from([q[0] + h[0], q[1] + h[1], q[2] + h[2]]));
            leaf(c, &mut g, Node::Bx(b), "[]");
        } else {
            let s = patch(&mut c.rng);
            leaf(c, &mut g, Node::SpAt(s, q), "[]");
        }
    }
    new_list(c, &mut g);
    let top = g.len() - 1;
    for k in 0..n {
        add(c, &mut g, top, k);
    }
    for k in 0..8.min(n) {
        // aimed at a member of each part of the list, the last one included
        let m = n - 1 - k * n / 8;
        let t = near(&mut c.rng, &g, m);
        let o = [t[0] + c.rng.uni(-4.0, 4.0) as f32, t[1] + c.rng.uni(-4.0, 4.0) as f32, t[2] + c.rng.uni(-4.0, 4.0) as f32];
        let d = [t[0] - o[0], t[1] - o[1], t[2] - o[2]];
        let ext = if c.rng.bool() { 1.5 } else { f32::MAX };
        ask(c, &g, top, Ray::new(Point3f::from(o), Vector3f::from(d), ext), false);
    }
    bounds(c, &g, top);
}
fn below(g: &G, n: usize) -> Vec<usize> {
    let mut v = vec![n];
    match &g[n] {
        Node::List(m) => m.iter().for_each(|k| v.extend(below(g, *k))),
        Node::Xf(k, _) => v.extend(below(g, *k)),
        _ => (),
    }
    v
}
fn shoot(c: &mut Ctx, g: &G, n: usize) {
    let r = &mut c.rng;
    let t = near(r, g, n);
    let o: [f32; 3] = match r.below(4) {
        0 => near(r, g, n),
        1 => {
            let q = near(r, g, n);
            [t[0] + 3.0 * (q[0] - t[0]), t[1] + 3.0 * (q[1] - t[1]), t[2] + 3.0 * (q[2] - t[2])]
        }
        _ => [coord(r), coord(r), coord(r)],
    };
    let mut d = [t[0] - o[0], t[1] - o[1], t[2] - o[2]];
    if d.iter().map(|x| x * x).sum::<f32>() < 1e-6 || d.iter().any(|x| !x.is_finite()) {
        d = [1.0, -0.5, 0.25];
    }
    // ray parameters of any magnitude
    let k = r.pick(&[1.0f32, 0.25, 3.0]) * stretch(r, 24) as f32;
    d = d.map(|x| x * k);
    let ext = match r.below(4) {
        0 => r.uni(0.0, 2.0) as f32 / k,
        1 => f32::INFINITY,
        _ => f32::MAX,
    };
    ask(c, g, n, Ray::new(Point3f::from(o), Vector3f::from(d), ext), false);
}
pub fn run(c: &mut Ctx) {
    let own = |j: &J| ["leaf", "list"].contains(&j.get("prog").arr()[0].get("op").str());
    let scn: Vec<J> = c.scn.iter().filter(|j| j.has("prog") && own(j)).cloned().collect();
    let cap = 20 * c.count as usize;
    let step = (scn.len() / cap.max(1)).max(1);
    let from = c.rng.below(step as u64) as usize;
    for j in scn.iter().skip(from).step_by(step) {
        line(c, j);
    }
    for k in 0..c.count {
        random(c);
        if c.prop == "C19" && k % 3 == 0 {
            crowd(c);
        }
    }
}
