//! C08: matrix algebra and the general inverse.
use crate::out::{guard, list, Ev};
use crate::rng::{Rng, F};
use crate::scalar::S;
use crate::vecs::{encs, Num};
use crate::Ctx;
use scarlet::math::transform::{Invertible, Matrix4x4};

type D<T> = [[T; 4]; 4];
pub fn enc_m<T: S>(m: &D<T>) -> String {
    list(m.iter().map(|r| encs(r)))
}
fn put<T: S>(c: &mut Ctx, f: &str, a: &D<T>, extra: Vec<(&str, String)>, o: Option<String>) {
    let kind = match f {
        "inv" => "inv",
        "mul" | "muls" => "prod",
        _ => "access",
    };
    let mut e = Ev::new(kind).s("ty", T::TY).s("f", f).raw("a", &enc_m(a));
    for (k, v) in extra {
        e = e.raw(k, &v);
    }
    e = e.b("panic", o.is_none());
    c.out.emit(match o {
        Some(t) => e.raw("o", &t),
        None => e,
    });
}
fn m<T: S>(x: Matrix4x4<T>) -> String {
    enc_m(&x.data)
}
fn basics<T: Num>(c: &mut Ctx, a: D<T>, b: D<T>, s: T) {
    let (x, y) = (Matrix4x4::from(a), Matrix4x4::from(b));
    let o = guard(|| m(x * y));
    put(c, "mul", &a, vec![("b", enc_m(&b))], o);
    let o = guard(|| m(x * s));
    put(c, "muls", &a, vec![("s", s.e())], o);
    let o = guard(|| m(x.transpose()));
    put(c, "tr", &a, vec![], o);
    put(c, "id", &a, vec![], Some(m(x)));
    let o = guard(|| {
        let mut d = a;
        for i in 0..4 {
            for j in 0..4 {
                d[i][j] = x[(i, j)];
            }
        }
        enc_m(&d)
    });
    put(c, "idx", &a, vec![], o);
    let o = guard(|| {
        let mut d = a;
        for i in 0..4 {
            d[i] = x[i];
        }
        enc_m(&d)
    });
    put(c, "idx2", &a, vec![], o);
    let (i, j) = (c.rng.below(4) as usize, c.rng.below(4) as usize);
    for k in 0..4usize {
        let o = guard(|| encs(&if k < 2 { x.row(i) } else { x.row_vec(i).vec }));
        put(c, "row", &a, vec![("i", i.to_string())], o);
        let o = guard(|| encs(&if k < 2 { x.col(k) } else { x.col_vec(k).vec }));
        put(c, "col", &a, vec![("i", k.to_string())], o);
        let o = guard(|| encs(&if k >= 2 { x.col(k) } else { x.col_vec(k).vec }));
        put(c, "col", &a, vec![("i", k.to_string())], o);
        let o = guard(|| encs(&x.row_vec(k).vec));
        put(c, "row", &a, vec![("i", k.to_string())], o);
    }
    let ij = vec![("i", i.to_string()), ("j", j.to_string()), ("s", s.e())];
    let o = guard(|| {
        let mut z = x;
        z[(i, j)] = s;
        m(z)
    });
    put(c, "set", &a, ij.clone(), o);
    let o = guard(|| {
        let mut z = x;
        z[i][j] = s;
        m(z)
    });
    put(c, "set", &a, ij, o);
    let mut b2 = a;
    if c.rng.bool() {
        b2[i][j] = s;
    }
    let o = guard(|| (x == Matrix4x4::from(b2)).to_string());
    put(c, "eq", &a, vec![("b", enc_m(&b2))], o);
    for o in [
        guard(|| m(Matrix4x4::<T>::identity())),
        guard(|| m(Matrix4x4::<T>::new())),
        guard(|| m(Matrix4x4::<T>::default())),
    ] {
        put(c, "ident", &a, vec![], o);
    }
    let o = guard(|| m(Matrix4x4::<T>::zero()));
    put(c, "zero", &a, vec![], o);
}
fn inv<T: Num + F>(c: &mut Ctx, a: D<T>) {
    let o = guard(|| m(Matrix4x4::from(a).inverse()));
    put(c, "inv", &a, vec![], o);
}
fn rnd<T: Num>(r: &mut Rng) -> D<T> {
    let mut d = [[T::zero(); 4]; 4];
    for row in d.iter_mut() {
        for x in row.iter_mut() {
            *x = T::gen(r, 1);
        }
    }
    d
}
fn small_int<T: Num>(r: &mut Rng) -> D<T> {
    let mut d = [[T::zero(); 4]; 4];
    for row in d.iter_mut() {
        for x in row.iter_mut() {
            *x = T::small(r.int(if T::SIGNED { -9 } else { 0 }, 9)).unwrap();
        }
    }
    d
}
fn perm<T: F>(r: &mut Rng) -> D<T> {
    let mut p = [0usize, 1, 2, 3];
    for i in (1..4).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut d = [[T::zero(); 4]; 4];
    for i in 0..4 {
        d[i][p[i]] = T::of(if r.bool() { r.uni(0.3, 4.0) } else { r.uni(-4.0, -0.3) });
    }
    d
}
/// a permuted diagonal plus a perturbation: invertible, well conditioned
fn wellcond<T: F>(r: &mut Rng, amp: f64, affine: bool) -> D<T> {
    let mut d = perm::<T>(r);
    for i in 0..4 {
        for j in 0..4 {
            d[i][j] = d[i][j] + T::of(r.uni(-amp, amp));
        }
    }
    if affine {
        for j in 0..3 {
            d[3][j] = T::of(0.0);
        }
        d[3][3] = T::of(1.0);
    }
    d
}
/// the same at another scale: uniformly tiny or huge, or differing by row or column, so the
/// determinant has any magnitude while the matrix stays invertible
fn scaled<T: F>(r: &mut Rng, mut d: D<T>) -> D<T> {
    let mode = r.below(3);
    let span = if T::W == 32 { 7 } else { 20 };
    let all = r.int(-span, span);
    let e: Vec<i64> = (0..4).map(|_| r.int(-span, span)).collect();
    for i in 0..4 {
        for j in 0..4 {
            let k = match mode {
                0 => all,
                1 => e[i],
                _ => e[j],
            };
            d[i][j] = d[i][j] * T::of(2f64.powi(k as i32));
        }
    }
    d
}
/// matrices with the shapes people special-case: each region (linear part, translation column,
/// bottom row, corner) is drawn on its own
fn shaped<T: Num>(r: &mut Rng) -> D<T> {
    let z = T::zero();
    let one = T::small(1).unwrap();
    let mut d = [[z; 4]; 4];
    let s = T::gen(r, 1);
    let kind = r.below(8);
    for i in 0..3 {
        for j in 0..3 {
            let g = T::gen(r, 1);
            d[i][j] = match kind {
                0 => if i == j { one } else { z },
                1 => if i == j { s } else { z },
                2 => if i == j { g } else { z },
                3 => if i <= j { g } else { z },
                4 => if i >= j { g } else { z },
                5 => if (i + 1) % 3 == j { g } else { z },
                6 => if i > j { d[j][i] } else { g },
                _ => g,
            };
        }
    }
    let (t, b) = (r.bool(), r.chance(2, 5));
    for i in 0..3 {
        if t {
            d[i][3] = T::gen(r, 1);
        }
        if b && r.chance(2, 3) {
            d[3][i] = T::gen(r, 1);
        }
    }
    d[3][3] = match r.below(6) {
        0 => s,
        1 => z,
        2 => T::gen(r, 1),
        _ => one,
    };
    d
}
/// rows (or columns) of unit length, orthogonal or not
fn unit_rows<T: Num + F>(r: &mut Rng) -> D<T> {
    const U: [[f64; 3]; 5] =
        [[1.0, 0.0, 0.0], [0.6, 0.8, 0.0], [2.0 / 3.0, 2.0 / 3.0, 1.0 / 3.0], [0.28, 0.96, 0.0], [0.48, 0.6, 0.64]];
    let mut d = [[T::zero(); 4]; 4];
    let tr = r.bool();
    for i in 0..3 {
        let u = U[r.below(5) as usize];
        let k = r.below(3) as usize;
        for j in 0..3 {
            let x = T::of(if r.chance(1, 4) { -u[(j + k) % 3] } else { u[(j + k) % 3] });
            if tr {
                d[j][i] = x
            } else {
                d[i][j] = x
            }
        }
        if r.bool() {
            d[i][3] = T::gen(r, 1);
        }
    }
    d[3][3] = T::of(1.0);
    d
}
fn shaped_products<T: Num>(c: &mut Ctx) {
    for _ in 0..4 {
        let (a, b) = (shaped::<T>(&mut c.rng), shaped::<T>(&mut c.rng));
        let o = guard(|| m(Matrix4x4::from(a) * Matrix4x4::from(b)));
        put(c, "mul", &a, vec![("b", enc_m(&b))], o);
    }
}
fn floats<T: Num + F>(c: &mut Ctx) {
    shaped_products::<T>(c);
    let (a, b) = (shaped::<T>(&mut c.rng), shaped::<T>(&mut c.rng));
    inv(c, a);
    inv(c, b);
    let a = unit_rows::<T>(&mut c.rng);
    inv(c, a);
    let (a, b) = (rnd::<T>(&mut c.rng), rnd::<T>(&mut c.rng));
    let s = T::gen(&mut c.rng, 1);
    basics(c, a, b, s);
    let p = perm::<T>(&mut c.rng);
    inv(c, p);
    for amp in [0.05, 0.2, 1.0] {
        for k in 0..3 {
            let a = wellcond::<T>(&mut c.rng, amp, k == 2);
            inv(c, a);
            if k < 2 && amp < 0.5 {
                let a = scaled(&mut c.rng, a);
                inv(c, a);
            }
        }
    }
    let a = small_int::<T>(&mut c.rng);
    inv(c, a);
}
pub fn run(c: &mut Ctx) {
    for j in c.scn.clone() {
        let v = j.get("m64").ints();
        let mut d = [[0f64; 4]; 4];
        let mut g = [[0i32; 4]; 4];
        let mut whole = true;
        for i in 0..16 {
            d[i / 4][i % 4] = v[i] as f64 / 64.0;
            whole &= v[i] % 64 == 0;
            g[i / 4][i % 4] = (v[i] / 64) as i32;
        }
        let f = d.map(|r| r.map(|x| x as f32));
        inv(c, d);
        inv(c, f);
        if whole {
            let b = small_int::<i32>(&mut c.rng);
            let o = guard(|| m(Matrix4x4::from(g) * Matrix4x4::from(b)));
            put(c, "mul", &g, vec![("b", enc_m(&b))], o);
        }
    }
    for _ in 0..c.count {
        let (a, b) = (small_int::<i32>(&mut c.rng), small_int::<i32>(&mut c.rng));
        let s = c.rng.int(-9, 9) as i32;
        basics(c, a, b, s);
        let (a, b) = (rnd::<i64>(&mut c.rng), small_int::<i64>(&mut c.rng));
        basics(c, a, b, s as i64);
        let (a, b) = (small_int::<u32>(&mut c.rng), small_int::<u32>(&mut c.rng));
        basics(c, a, b, s.unsigned_abs());
        shaped_products::<i32>(c);
        floats::<f32>(c);
        floats::<f64>(c);
    }
}
