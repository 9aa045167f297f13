//! Vector and ray geometry
use crate::core::*;

use crate::geom::*;
use solstrale::geo::vec3::{Vec3, ALMOST_ZERO, ONE_VECTOR, UNIT_Y, ZERO_VECTOR};
use solstrale::geo::{Onb, Ray};

pub const RULE: &str = "Random and hostile vectors (components of very different magnitude, zeros of both signs, axis-parallel, almost opposite or equal) are given to every operation and compared with the defining identities computed independently. Non-trivial: operands are finite with all-different components or a named special case; counted by their bits.";

fn comp(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.,
        1 => -0.,
        2 => r.sign(),
        3 => r.sign() * r.log(1e-60, 1e-9),
        4 => r.sign() * r.log(1e9, 1e60),
        _ => r.sign() * r.log(1e-3, 1e3),
    }
}

fn vec(r: &mut Rng) -> V {
    match r.below(4) {
        0 => rand_dir(r) * r.log(1e-3, 1e3),
        1 => hostile_dir(r),
        _ => v(comp(r), comp(r), comp(r)),
    }
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 5e-16 * a.abs().max(b.abs()) || (a - b).abs() < 1e-300
}

fn same_v(a: Vec3, b: V) -> bool {
    same(a.x, b.0) && same(a.y, b.1) && same(a.z, b.2)
}

pub fn run(run: &Run) {
    run.cases("arithmetic", run.n(4000, 80000), |c| {
        for _ in 0..500 {
            let (a, b) = (vec(&mut c.rng), vec(&mut c.rng));
            let k = comp(&mut c.rng);
            c.eval();
            c.distinct_f(&[a.0, a.1, a.2, b.0, b.1, b.2]);
            c.sample(|| format!("a = {a:?}, b = {b:?}, k = {k}"));
            let (x, y) = (a.s(), b.s());
            ensure!(same_v(x + y, v(a.0 + b.0, a.1 + b.1, a.2 + b.2)), "{a:?} + {b:?} = {:?}", x + y);
            ensure!(same_v(x - y, v(a.0 - b.0, a.1 - b.1, a.2 - b.2)), "{a:?} - {b:?} = {:?}", x - y);
            ensure!(same_v(x * y, v(a.0 * b.0, a.1 * b.1, a.2 * b.2)), "{a:?} * {b:?} = {:?}", x * y);
            ensure!(same_v(x / y, v(a.0 / b.0, a.1 / b.1, a.2 / b.2)), "{a:?} / {b:?} = {:?}", x / y);
            ensure!(same_v(x + k, v(a.0 + k, a.1 + k, a.2 + k)), "{a:?} + {k} = {:?}", x + k);
            ensure!(same_v(x - k, v(a.0 - k, a.1 - k, a.2 - k)), "{a:?} - {k} = {:?}", x - k);
            ensure!(same_v(x * k, v(a.0 * k, a.1 * k, a.2 * k)), "{a:?} * {k} = {:?}", x * k);
            if k != 0. {
                ensure!(same_v(x / k, v(a.0 / k, a.1 / k, a.2 / k)), "{a:?} / {k} = {:?}", x / k);
            }
            let kf = k as f32;
            let kd = kf as f64;
            ensure!(same_v(x * kf, v(a.0 * kd, a.1 * kd, a.2 * kd)), "{a:?} * {kf}f32 = {:?}", x * kf);
            let mut z = x;
            z += y;
            ensure!(same_v(z, v(a.0 + b.0, a.1 + b.1, a.2 + b.2)), "{a:?} += {b:?} gives {z:?}");
            ensure!(same_v(x.neg(), -a), "neg {a:?} = {:?}", x.neg());
            for i in 0..3 {
                ensure!(same(x.axis(i as u8), a.get(i)), "axis {i} of {a:?} = {}", x.axis(i as u8));
            }
            let near = a.max_abs() < ALMOST_ZERO;
            ensure!(x.near_zero() == near, "near_zero of {a:?} = {}", x.near_zero());
            // Products, relative to the size of their terms
            let terms = (a.0 * b.0).abs() + (a.1 * b.1).abs() + (a.2 * b.2).abs();
            ensure!(
                (x.dot(y) - a.dot(b)).abs() <= 1e-15 * terms + 1e-300,
                "dot of {a:?} and {b:?} = {}", x.dot(y)
            );
            let cr = V::of(x.cross(y));
            for i in 0..3 {
                let (j, l) = ((i + 1) % 3, (i + 2) % 3);
                let (p, q) = (a.get(j) * b.get(l), a.get(l) * b.get(j));
                ensure!(
                    (cr.get(i) - (p - q)).abs() <= 1e-15 * (p.abs() + q.abs()) + 1e-300,
                    "cross of {a:?} and {b:?} = {cr:?}"
                );
            }
            let l = a.len();
            if l > 1e-100 && l < 1e100 {
                ensure!((x.length() - l).abs() <= 1e-15 * l, "length of {a:?} = {}", x.length());
                ensure!((x.length_squared() - l * l).abs() <= 2e-15 * l * l, "squared length of {a:?} = {}", x.length_squared());
                ensure!(close_v(V::of(x.unit()), a / l, 1e-15), "unit of {a:?} = {:?}", x.unit());
            }
        }
        Ok(())
    });

    run.cases("constants", 1, |c| {
        c.evals(3);
        ensure!(V::of(ZERO_VECTOR) == v(0., 0., 0.), "ZERO_VECTOR is {ZERO_VECTOR}");
        ensure!(V::of(ONE_VECTOR) == v(1., 1., 1.), "ONE_VECTOR is {ONE_VECTOR}");
        ensure!(V::of(UNIT_Y) == v(0., 1., 0.), "UNIT_Y is {UNIT_Y}");
        Ok(())
    });

    run.cases("reflect and refract", run.n(4000, 80000), |c| {
        for _ in 0..300 {
            let n = hostile_dir(&mut c.rng);
            let d = if c.rng.chance(0.2) {
                // Close to perpendicular or grazing
                let (t, ..) = frame(n);
                let e = c.rng.log(1e-6, 1e-1);
                if c.rng.chance(0.5) { (t * e - n).unit() } else { (t - n * e).unit() }
            } else {
                hostile_dir(&mut c.rng)
            };
            let l = if c.rng.chance(0.5) { 1. } else { c.rng.log(1e-3, 1e3) };
            c.eval();
            c.distinct_f(&[n.0, n.1, n.2, d.0, d.1, d.2]);
            let w = d * l;
            c.sample(|| format!("direction {w:?} on normal {n:?}"));
            let m = V::of(w.s().reflect(n.s()));
            let along = w.dot(n);
            ensure!((m.len() - l).abs() <= 1e-14 * l, "reflection of {w:?} about {n:?} changes the length: {m:?}");
            ensure!((m.dot(n) + along).abs() <= 1e-14 * l, "reflection of {w:?} about {n:?} is {m:?}");
            ensure!(
                close_v(m - n * m.dot(n), w - n * along, 1e-14 * l),
                "reflection of {w:?} about {n:?} changes the direction along the surface: {m:?}"
            );
            // Refraction is about unit vectors against the normal
            let d = if d.dot(n) > 0. { -d } else { d };
            let cos = -d.dot(n);
            if cos < 1e-6 {
                continue;
            }
            let ratio = c.rng.log(0.3, 3.);
            let sin = d.cross(n).len();
            if ratio * sin > 1. - 1e-9 {
                c.count("total reflections skipped");
                continue;
            }
            c.count("refractions");
            let t = V::of(d.s().refract(n.s(), ratio));
            let room = 1. / (1. - ratio * sin).sqrt();
            let tol = 1e-13 * room;
            ensure!((t.len() - 1.).abs() <= tol, "refraction of {d:?} at {n:?} by {ratio} is not of unit length: {t:?}");
            ensure!(t.dot(n) <= tol, "refraction of {d:?} at {n:?} by {ratio} stays on its side: {t:?}");
            ensure!(
                close_v(t.cross(n), d.cross(n) * ratio, tol),
                "refraction of {d:?} at {n:?} by {ratio} breaks Snell's law: {t:?}"
            );
        }
        Ok(())
    });

    run.cases("orthonormal basis", run.n(2000, 40000), |c| {
        for _ in 0..500 {
            let d = match c.rng.below(4) {
                0 => {
                    // Around the switch of the helper axis, and close to the axes
                    let x = 0.9 + c.rng.sign() * c.rng.log(1e-16, 1e-2);
                    let p = c.rng.range(0., 6.3);
                    let s = (1. - x * x).sqrt();
                    let d = v(x * c.rng.sign(), s * p.cos(), s * p.sin());
                    match c.rng.below(3) {
                        0 => d,
                        1 => v(d.1, d.0, d.2),
                        _ => v(d.2, d.1, d.0),
                    }
                }
                1 => (axis_dir(&mut c.rng) + rand_dir(&mut c.rng) * c.rng.log(1e-16, 1e-3)).unit(),
                _ => hostile_dir(&mut c.rng),
            };
            let w = d * c.rng.log(1e-3, 1e3);
            c.eval();
            c.distinct_f(&[w.0, w.1, w.2]);
            c.sample(|| format!("basis from {w:?}"));
            let o = Onb::new(w.s());
            let e: Vec<V> = [v(1., 0., 0.), v(0., 1., 0.), v(0., 0., 1.)]
                .iter()
                .map(|a| V::of(o.local(a.s())))
                .collect();
            for i in 0..3 {
                for j in 0..=i {
                    let want = if i == j { 1. } else { 0. };
                    ensure!(
                        (e[i].dot(e[j]) - want).abs() <= 1e-14,
                        "basis from {w:?} is not orthonormal: {e:?}"
                    );
                }
            }
            ensure!(close_v(e[2], w.unit(), 1e-14), "third axis of basis from {w:?} is {:?}", e[2]);
            let a = rand_in(&mut c.rng, 3.);
            ensure!(
                close_v(V::of(o.local(a.s())), e[0] * a.0 + e[1] * a.1 + e[2] * a.2, 1e-13),
                "basis from {w:?} is not linear at {a:?}"
            );
        }
        Ok(())
    });

    run.cases("rays", run.n(3000, 60000), |c| {
        for _ in 0..300 {
            let o1 = rand_in(&mut c.rng, 1.) * c.rng.log(1e-2, 1e3);
            let o2 = rand_in(&mut c.rng, 1.) * c.rng.log(1e-2, 1e3);
            let d1 = hostile_dir(&mut c.rng);
            let kind = c.rng.below(5);
            let d2 = match kind {
                0 => d1,
                1 => -d1,
                2 | 3 => {
                    let (t, b, _) = frame(d1);
                    let p = c.rng.range(0., 6.3);
                    let a = if kind == 2 { c.rng.log(1e-5, 1e-2) } else { c.rng.log(1e-2, 1.) };
                    (d1 * a.cos() + (t * p.cos() + b * p.sin()) * a.sin()) * c.rng.sign()
                }
                _ => hostile_dir(&mut c.rng),
            };
            // Scales that are exact, so that parallel lines stay parallel
            let (l1, l2) = (2f64.powi(c.rng.int(-20, 20) as i32), 2f64.powi(c.rng.int(-20, 20) as i32));
            let (a, b) = (Ray::new(o1.s(), (d1 * l1).s()), Ray::new(o2.s(), (d2 * l2).s()));
            c.eval();
            c.distinct_f(&[o1.0, o1.1, o2.0, o2.1, d1.0, d1.1, d2.0, d2.1]);
            c.sample(|| format!("lines {o1:?} + {d1:?} and {o2:?} + {d2:?}"));

            let t = c.rng.sign() * c.rng.log(1e-3, 1e3);
            let at = V::of(a.at(t));
            ensure!(
                close_v(at, o1 + d1 * (l1 * t), 1e-14 * (o1.max_abs() + l1 * t.abs())),
                "point at {t} of ray from {o1:?} to {:?} is {at:?}", d1 * l1
            );
            ensure!(V::of(a.origin) == o1 && V::of(a.direction) == d1 * l1, "ray changes origin or direction");

            let n = d1.cross(d2);
            let sin = n.len();
            let od = o2 - o1;
            let want = if sin < 1e-14 {
                c.count("parallel lines");
                od.cross(d1).len()
            } else if sin < 1e-6 {
                continue;
            } else {
                c.count(if sin < 1e-2 { "almost parallel lines" } else { "skew lines" });
                // By the closest points, in the plane of both directions
                let cosb = d1.dot(d2);
                let q = od - d1 * od.dot(d1);
                let w = d2 - d1 * cosb; // d2 without its part along d1
                let r = q - w * (q.dot(w) / w.dot(w));
                r.len()
            };
            let tol = 1e-14 * (o1.max_abs() + o2.max_abs()) / sin.max(if sin < 1e-14 { 1. } else { 1e-9 }) * 4.;
            for (got, how) in [
                (a.shortest_distance(&b), "as given"),
                (b.shortest_distance(&a), "swapped"),
                (Ray::new(o1.s(), d1.s()).shortest_distance(&b), "scaled"),
                (a.shortest_distance(&Ray::new(o2.s(), (d2 * -3.).s())), "reversed"),
                (Ray::new((o1 + d1).s(), (d1 * l1).s()).shortest_distance(&b), "moved along the line"),
            ] {
                ensure!(
                    (got - want).abs() <= tol * 4.,
                    "shortest distance of lines {o1:?} + t {d1:?} * {l1} and {o2:?} + t {d2:?} * {l2} ({how}) is {got}, should be {want}"
                );
            }
        }
        Ok(())
    });
}

fn close_v(a: V, b: V, tol: f64) -> bool {
    (a - b).max_abs() <= tol
}
