//! C05: neighbours of floats.
use crate::out::{guard, Ev};
use crate::rng::F;
use crate::Ctx;
use scarlet::math::scalar::GFloat;

/// The complete graph of a function on 32-bit patterns, as maximal runs of
/// constant displacement (NaN results are one class).
fn segments(f: fn(f32) -> f32, from: u64, to: u64) -> Vec<(u32, u32, u32, u32, bool)> {
    let mut v: Vec<(u32, u32, u32, u32, bool)> = vec![];
    let mut start = from as u32;
    let mut cur: Option<(u32, bool)> = None;
    let g = |b: u32| -> (u32, bool) {
        let x = f32::from_bits(b);
        let r = f(x);
        if r != r {
            (0, true)
        } else {
            (r.to_bits().wrapping_sub(b), false)
        }
    };
    for b in from..to {
        let k = g(b as u32);
        if cur != Some(k) {
            if let Some((d, n)) = cur {
                let e = (b - 1) as u32;
                v.push((start, e, start.wrapping_add(d), e.wrapping_add(d), n));
            }
            start = b as u32;
            cur = Some(k);
        }
    }
    let (d, n) = cur.unwrap();
    let e = (to - 1) as u32;
    v.push((start, e, start.wrapping_add(d), e.wrapping_add(d), n));
    v
}

fn step<T: F>(c: &mut Ctx, x: T) {
    let r = guard(|| (GFloat::next_up(x), GFloat::next_down(x)));
    let e = Ev::new("step").i("w", T::W as i64).f("x", x).b("panic", r.is_none());
    let e = match r {
        Some((u, d)) => e.sub("o", Ev::o().f("up", u).f("dn", d)),
        None => e,
    };
    c.out.emit(e);
}

pub fn run(c: &mut Ctx) {
    // 32-bit: exhaustive.  The pattern space is split over the shards, each
    // shard's share again over one thread per function.
    let span = 1u64 << 32;
    let from = span * c.shard / c.shards;
    let to = span * (c.shard + 1) / c.shards;
    let hu = std::thread::spawn(move || segments(|x| GFloat::next_up(x), from, to));
    let hd = std::thread::spawn(move || segments(|x| GFloat::next_down(x), from, to));
    for (name, h) in [("up", hu), ("dn", hd)] {
        match h.join() {
            Ok(segs) => {
                c.out.emit(Ev::new("open").s("f", name).i("lo", from as u32 as i32 as i64));
                // a correct function has a handful of segments; a broken one may have
                // billions, of which the first few thousand are plenty
                for (a, b, fa, fb, nan) in segs.into_iter().take(5000) {
                    c.out.emit(
                        Ev::new("seg").s("f", name)
                            .i("lo", a as i32 as i64).i("hi", b as i32 as i64)
                            .sub("o", Ev::o().raw("flo", &format!("[{}]", fa as i32)).raw("fhi", &format!("[{}]", fb as i32))
                                .b("nan", nan)),
                    );
                }
                c.out.emit(Ev::new("close").s("f", name).i("hi", (to - 1) as u32 as i32 as i64));
            }
            Err(_) => c.out.emit(Ev::new("segpanic").s("f", name)),
        }
    }
    // patterns of the toy format of MCUlp, embedded at both ends and the middle
    for j in c.scn.clone() {
        let (s, e, m) = (j.get("s").int() as u64, j.get("e").int() as u64, j.get("m").int() as u64);
        let (em, mm) = (j.get("E").int() as u64, j.get("M").int() as u64);
        let emb = |x: u64, top: u64, full: u64| if x <= top / 2 { x } else { full - (top - x) };
        step(c, f32::from_bits((s << 31 | emb(e, em, 255) << 23 | emb(m, mm, (1 << 23) - 1)) as u32));
        step(c, f64::from_bits(s << 63 | emb(e, em, 2047) << 52 | emb(m, mm, (1 << 52) - 1)));
        let mid = (em / 2) as i64;
        let near = |bias: i64| (bias + e as i64 - mid) as u64;
        step(c, f32::from_bits((s << 31 | near(127) << 23 | emb(m, mm, (1 << 23) - 1)) as u32));
        step(c, f64::from_bits(s << 63 | near(1023) << 52 | emb(m, mm, (1 << 52) - 1)));
    }
    // 64-bit: every binade boundary of both signs, plus the special patterns
    let mut k = 0u64;
    for e in 0..2048u64 {
        for s in 0..2u64 {
            for m in [0u64, 1, (1 << 52) - 1, (1u64 << 32) - 1, 1u64 << 32, (1u64 << 31)] {
                k += 1;
                if k % c.shards == c.shard {
                    step(c, f64::from_bits(s << 63 | e << 52 | m));
                }
            }
        }
    }
    // carries and borrows of every length, under arbitrary leading bits
    for k in 0..64u64 {
        if k % c.shards == c.shard {
            for ones in [false, true] {
                for _ in 0..3 {
                    let hi = c.rng.u64() & !(u64::MAX >> (63 - k));
                    let b = hi | if ones { u64::MAX >> (63 - k) } else { 0 };
                    step(c, f64::from_bits(b));
                    step(c, f64::from_bits(b ^ 1 << k));
                }
            }
        }
    }
    for _ in 0..c.count {
        let b = c.rng.u64();
        step(c, f64::from_bits(b));
        let b = c.rng.u64() as u32;
        step(c, f32::from_bits(b));
        let x: f64 = crate::rng::any(&mut c.rng);
        step(c, x);
        // a walk up and down the line of floats
        let mut x: f64 = match c.rng.below(4) {
            0 => f64::from_bits(c.rng.below(4)),
            1 => f64::MAX,
            2 => -f64::from_bits(c.rng.below(4)),
            _ => crate::rng::any(&mut c.rng),
        };
        c.out.emit(Ev::new("start").i("w", 64).f("x", x));
        for _ in 0..6 {
            let up = c.rng.bool();
            let y = guard(|| if up { GFloat::next_up(x) } else { GFloat::next_down(x) });
            if let Some(y) = y {
                c.out.emit(Ev::new("walk").i("w", 64).b("up", up).sub("o", Ev::o().f("y", y)));
                x = y;
            }
        }
        let mut x: f32 = match c.rng.below(4) {
            0 => f32::from_bits(c.rng.below(4) as u32),
            1 => -f32::MAX,
            2 => -f32::from_bits(c.rng.below(4) as u32),
            _ => crate::rng::any(&mut c.rng),
        };
        c.out.emit(Ev::new("start").i("w", 32).f("x", x));
        for _ in 0..6 {
            let up = c.rng.bool();
            let y = guard(|| if up { GFloat::next_up(x) } else { GFloat::next_down(x) });
            if let Some(y) = y {
                c.out.emit(Ev::new("walk").i("w", 32).b("up", up).sub("o", Ev::o().f("y", y)));
                x = y;
            }
        }
    }
}
