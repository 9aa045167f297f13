//! Bounding boxes
use crate::core::*;
use crate::geom::*;
use crate::p06::{probe, shape_of};
use crate::scene::*;
use solstrale::combine_aabbs;
use solstrale::geo::Aabb;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable};
use solstrale::util::interval::{combine_intervals, Interval, EMPTY_INTERVAL, RAY_INTERVAL, UNIVERSE_INTERVAL};

pub const RULE: &str = "Boxes reported for objects of every kind and size, for hierarchies and fog are compared with exact bounds and with the points where probing rays hit; box operations are compared with independent interval arithmetic; rays that pass through the inside of boxes, or clearly miss them, with all kinds of origins and axis-parallel directions, are asked for. Non-trivial: a ray that passes through the box or within twice its size; counted by ray and box.";

fn ax(b: &Aabb) -> [Interval; 3] {
    [b.x, b.y, b.z]
}

fn aabb(lo: V, hi: V) -> Aabb {
    Aabb { x: Interval::new(lo.0, hi.0), y: Interval::new(lo.1, hi.1), z: Interval::new(lo.2, hi.2) }
}

fn same(b: &Aabb, lo: V, hi: V) -> bool {
    ax(b).iter().enumerate().all(|(i, iv)| iv.min == lo.get(i) && iv.max == hi.get(i))
}

pub fn run(run: &Run) {
    run.cases("boxes of objects", run.n(300000, 4000000), |c| {
        let s = shape_of(&mut c.rng);
        let object = build(&s, id_mat(1));
        c.sample(|| format!("{s:?}"));
        c.eval();
        let (lo, hi) = s.bounds();
        let scale = lo.max_abs().max(hi.max_abs());
        let b = object.bounding_box();
        for (i, iv) in ax(b).iter().enumerate() {
            let ctx = || format!("{s:?}: box is {iv:?} on axis {i}, exactly it is {} to {}", lo.get(i), hi.get(i));
            let tol = 1e-13 * scale;
            ensure!(iv.min <= lo.get(i) + tol && iv.max >= hi.get(i) - tol, "{}", ctx());
            ensure!(iv.max - iv.min > 0., "{}: has no thickness", ctx());
            ensure!(iv.min >= lo.get(i) - 1.1e-4 - tol && iv.max <= hi.get(i) + 1.1e-4 + tol, "{}: needlessly large", ctx());
        }
        for _ in 0..10 {
            let p = probe(&mut c.rng, &s);
            c.eval();
            for iv in [ahead(), universe()] {
                if let Some(h) = object.hit(&ray(p.o, p.d), &iv) {
                    c.distinct_f(&[p.o.0, p.o.1, p.o.2, p.d.0, p.d.1, p.d.2]);
                    c.count("hits inside of the box");
                    let q = V::of(h.hit_point);
                    let tol = 1e-6 * s.size() + 1e-11 * (scale + (p.o - q).len());
                    for (i, iv) in ax(b).iter().enumerate() {
                        ensure!(
                            q.get(i) >= iv.min - tol && q.get(i) <= iv.max + tol,
                            "{s:?}: hit at {q:?} is outside of the box {b:?}"
                        );
                    }
                }
            }
        }
        Ok(())
    });

    run.cases("boxes of hierarchies and fog", run.n(20000, 200000), |c| {
        let n = 1 + c.rng.below(30) as usize;
        let shapes: Vec<Shape> = (0..n).map(|_| shape_of(&mut c.rng)).collect();
        let list: Vec<_> = shapes.iter().map(|s| build(s, id_mat(1))).collect();
        let (mut lo, mut hi) = (v(f64::INFINITY, f64::INFINITY, f64::INFINITY), v(f64::NEG_INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY));
        for h in &list {
            let b = ax(h.bounding_box());
            lo = lo.min(v(b[0].min, b[1].min, b[2].min));
            hi = hi.max(v(b[0].max, b[1].max, b[2].max));
        }
        let tree = Bvh::new(list.clone());
        c.eval();
        c.sample(|| format!("hierarchy of {n}, {lo:?} to {hi:?}"));
        c.distinct_f(&lo.arr());
        ensure!(same(tree.bounding_box(), lo, hi), "hierarchy of {shapes:?}: box is {:?}, should be {lo:?} to {hi:?}", tree.bounding_box());
        ensure!(same(tree.clone().bounding_box(), lo, hi), "copy of hierarchy of {shapes:?}: box is {:?}", tree.bounding_box());
        ensure!(same(Bvh::new(vec![tree.clone()]).bounding_box(), lo, hi), "nested hierarchy of {shapes:?}: box differs");
        let fog = ConstantMedium::new(tree.clone(), c.rng.log(1e-3, 1e3), v(1., 1., 1.).s());
        ensure!(same(fog.bounding_box(), lo, hi), "fog: box is {:?}", fog.bounding_box());
        let empty = Bvh::new(vec![]);
        let both = Bvh::new(vec![empty.clone(), tree.clone()]);
        ensure!(same(both.bounding_box(), lo, hi), "hierarchy with an empty one: box is {:?}", both.bounding_box());
        ensure!(ax(empty.bounding_box()).iter().all(|i| i.min > i.max), "empty hierarchy has box {:?}", empty.bounding_box());
        Ok(())
    });

    run.cases("box operations", run.n(30000, 600000), |c| {
        for _ in 0..30 {
            let m = c.rng.log(1e-3, 1e4);
            let mut p: Vec<V> = (0..4).map(|_| rand_in(&mut c.rng, m)).collect();
            if c.rng.chance(0.3) {
                // Flat
                let i = c.rng.below(3) as usize;
                let x = p[0].get(i);
                for q in p.iter_mut() {
                    let mut a = q.arr();
                    a[i] = x + if c.rng.chance(0.5) { 0. } else { c.rng.log(1e-6, 1e-3) };
                    *q = v(a[0], a[1], a[2]);
                }
            }
            c.eval();
            c.distinct_f(&[p[0].0, p[1].1, p[2].2]);
            let a = Aabb::new_from_2_points(p[0].s(), p[1].s());
            let (alo, ahi) = (p[0].min(p[1]), p[0].max(p[1]));
            ensure!(same(&a, alo, ahi), "box of {p:?}.. is {a:?}");
            let t = Aabb::new_from_3_points(p[0].s(), p[1].s(), p[2].s());
            ensure!(same(&t, alo.min(p[2]), ahi.max(p[2])), "box of three of {p:?} is {t:?}");
            let b = Aabb::new_from_2_points(p[2].s(), p[3].s());
            let (lo, hi) = (alo.min(p[2]).min(p[3]), ahi.max(p[2]).max(p[3]));
            ensure!(same(&a.combine(&b), lo, hi) && same(&b.combine(&a), lo, hi), "combination of {a:?} and {b:?} is {:?}", a.combine(&b));
            ensure!(same(&combine_aabbs!(&a, &b, &t), lo, hi), "combination of {a:?}, {b:?} and {t:?} is {:?}", combine_aabbs!(&a, &b, &t));
            ensure!(same(&a.combine(&Aabb::default()), alo, ahi) && same(&Aabb::default().combine(&a), alo, ahi), "combination of {a:?} and the empty box is {:?}", a.combine(&Aabb::default()));
            let k = p[3];
            let moved = &a + k.s();
            ensure!(same(&moved, alo + k, ahi + k), "{a:?} + {k:?} is {moved:?}");
            ensure!(close(V::of(a.center()), (alo + ahi) * 0.5, 1e-15 * m), "center of {a:?} is {}", a.center());
            ensure!((a.diagonal_length() - (ahi - alo).len()).abs() <= 1e-14 * m, "diagonal of {a:?} is {}", a.diagonal_length());
            let padded = a.pad_if_needed();
            for (old, new) in ax(&a).iter().zip(ax(&padded)) {
                ensure!(new.min <= old.min && new.max >= old.max && new.max > new.min, "padding of {a:?} gives {padded:?}");
                ensure!(old.min - new.min <= 1.01e-4 && new.max - old.max <= 1.01e-4, "padding of {a:?} gives {padded:?}");
                ensure!(m > 1e3 || new.max - new.min > 0.99e-4, "padding of {a:?} gives {padded:?}");
                if old.max - old.min > 2e-4 {
                    ensure!(*old == new, "needless padding of {a:?} gives {padded:?}");
                }
            }
        }
        Ok(())
    });

    run.cases("intervals", run.n(20000, 200000), |c| {
        for _ in 0..50 {
            let m = c.rng.log(1e-3, 1e4);
            let mut ends = [c.rng.range(-m, m), c.rng.range(-m, m)];
            ends.sort_by(f64::total_cmp);
            let iv = Interval::new(ends[0], ends[1]);
            let x = match c.rng.below(5) {
                0 => ends[0],
                1 => ends[1],
                2 => c.rng.range(ends[0], ends[1]),
                _ => c.rng.range(-2. * m, 2. * m),
            };
            c.eval();
            c.distinct_f(&[ends[0], ends[1], x]);
            let inside = x >= ends[0] && x <= ends[1];
            ensure!(iv.contains(x) == inside, "{iv:?} contains {x}: {}", iv.contains(x));
            let want = if x < ends[0] { ends[0] } else if x > ends[1] { ends[1] } else { x };
            ensure!(iv.clamp(x) == want, "{x} clamped to {iv:?} is {}", iv.clamp(x));
            ensure!((iv.size() - (ends[1] - ends[0])).abs() <= 1e-15 * m, "size of {iv:?} is {}", iv.size());
            let k = c.rng.range(-m, m);
            let (p, q) = (iv + k, iv - k);
            ensure!(p.min == ends[0] + k && p.max == ends[1] + k && q.min == ends[0] - k && q.max == ends[1] - k, "{iv:?} moved by {k} is {p:?}, {q:?}");
            let e = iv.expand(k.abs());
            ensure!((e.min - (ends[0] - k.abs() / 2.)).abs() <= 1e-15 * m && (e.max - (ends[1] + k.abs() / 2.)).abs() <= 1e-15 * m, "{iv:?} expanded by {} is {e:?}", k.abs());
            let j = combine_intervals(iv, Interval::new(x, x + 1.));
            ensure!(j.min == ends[0].min(x) && j.max == ends[1].max(x + 1.), "{iv:?} combined with {x}.. is {j:?}");
            ensure!(combine_intervals(iv, EMPTY_INTERVAL) == iv && combine_intervals(EMPTY_INTERVAL, iv) == iv, "the empty interval is not neutral to {iv:?}");
            ensure!(UNIVERSE_INTERVAL.contains(x * 1e300) && !EMPTY_INTERVAL.contains(x), "universe or empty interval is wrong at {x}");
            ensure!(RAY_INTERVAL.contains(x.abs() + 0.01) && !RAY_INTERVAL.contains(-x.abs()), "ray interval is wrong at {x}");
        }
        Ok(())
    });

    run.cases("box hits", run.n(80000, 1200000), |c| {
        let m = c.rng.log(1e-3, 1e3);
        let lo = rand_in(&mut c.rng, m * 10.);
        let thin = c.rng.chance(0.3);
        let mut e = v(c.rng.range(0.1, 1.), c.rng.range(0.1, 1.), c.rng.range(0.1, 1.)) * m;
        if thin {
            e.0 *= 1e-4;
        }
        let hi = lo + e;
        let b = aabb(lo, hi);
        c.sample(|| format!("{b:?}"));
        for _ in 0..40 {
            c.eval();
            let mut d = hostile_dir(&mut c.rng);
            let inner = lo + v(e.0 * c.rng.range(0.02, 0.98), e.1 * c.rng.range(0.02, 0.98), e.2 * c.rng.range(0.02, 0.98));
            let dist = m * c.rng.log(0.01, 1e3);
            match c.rng.below(3) {
                0 => {
                    // From outside or inside, through an inner point
                    let o = inner - d * dist;
                    let through = inner - o;
                    let dir = if c.rng.chance(0.5) { through.unit() } else { through * c.rng.log(1e-3, 1e3) };
                    d = dir;
                    // Signed zeros
                    let t: Vec<f64> = d.arr().iter().map(|x| if *x == 0. && c.rng.chance(0.5) { -*x } else { *x }).collect();
                    d = v(t[0], t[1], t[2]);
                    // Does it pass clearly through the inside with the rounding of the origin?
                    if d.max_abs() == 0. || !passes(lo, hi, o, d, 1e-3, true) {
                        continue;
                    }
                    c.distinct_f(&[o.0, o.1, o.2, d.0, d.1, d.2]);
                    c.count("rays through the inside");
                    ensure!(b.hit(&ray(o, d)), "{b:?}: ray from {o:?} to {d:?} through {inner:?} does not hit");
                }
                1 => {
                    c.distinct_f(&[inner.0, inner.1, inner.2, d.0, d.1, d.2]);
                    c.count("rays from inside");
                    ensure!(b.hit(&ray(inner, d)), "{b:?}: ray from inside {inner:?} to {d:?} does not hit");
                }
                _ => {
                    let o = inner + rand_dir(&mut c.rng) * m * c.rng.range(0., 4.);
                    if passes(lo, hi, o, d, -1e-3, false) {
                        continue;
                    }
                    c.distinct_f(&[o.0, o.1, o.2, d.0, d.1, d.2]);
                    c.count("rays that miss");
                    ensure!(!b.hit(&ray(o, d)), "{b:?}: ray from {o:?} to {d:?} is said to hit");
                }
            }
        }
        Ok(())
    });
}

/// Does the ray pass through the box that is smaller by the fraction on each side?
fn passes(lo: V, hi: V, o: V, d: V, inset: f64, _inside: bool) -> bool {
    let (mut t0, mut t1) = (0f64, f64::INFINITY);
    for i in 0..3 {
        let m = (hi.get(i) - lo.get(i)) * inset;
        let (a, b) = (lo.get(i) + m, hi.get(i) - m);
        if d.get(i) == 0. {
            if o.get(i) <= a || o.get(i) >= b {
                return false;
            }
            continue;
        }
        let (x, y) = ((a - o.get(i)) / d.get(i), (b - o.get(i)) / d.get(i));
        t0 = t0.max(x.min(y));
        t1 = t1.min(x.max(y));
    }
    t0 < t1
}
