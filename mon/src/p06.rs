//! Ray-object intersection
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::Uv;
use solstrale::hittable::{Hittable, Hittables, Quad, Triangle};
use solstrale::material::RayHit;
use solstrale::util::interval::Interval;
use std::f64::consts::PI;

pub const RULE: &str = "Shapes of every kind and size (1e-6..1e6, anywhere) and rays of every direction, scale and origin (aimed at the surface, past it, from inside, from behind) with length intervals around the meeting points; the reported hit is compared with geometry computed independently. Non-trivial: at least one meeting point of the line with the shape; counted by shape and ray.";

pub struct Probe {
    pub o: V,
    pub d: V,
}

/// A ray that has something to do with the shape
pub fn probe(r: &mut Rng, s: &Shape) -> Probe {
    let size = s.size();
    let target = match r.below(5) {
        0 => s.center() + rand_dir(r) * size * r.range(0., 2.),
        _ => s.point(r),
    };
    let dist = size * match r.below(16) {
        0..=4 => r.log(0.02, 1.),
        5..=9 => r.log(1., 10.),
        10..=14 => r.log(10., 300.),
        _ => r.log(300., if s.is_sphere() { 1e7 } else { 1e4 }),
    };
    let dir = hostile_dir(r);
    let o = if r.chance(0.15) && s.is_sphere() {
        s.center() + rand_dir(r) * size * r.range(0., 0.99)
    } else {
        target - dir * dist
    };
    // Exactly towards the target, or exactly along the special direction
    let dir = if r.chance(0.5) { dir } else if (target - o).len() > 0. { (target - o).unit() } else { dir };
    let scale = match r.below(10) {
        0..=3 => 1.,
        4 => r.log(1e-12, 1e12),
        _ => r.log(1e-3, 1e3),
    };
    Probe { o, d: dir * scale }
}

/// Intervals that do or do not contain the meeting points
pub fn interval(r: &mut Rng, ts: &[f64]) -> Interval {
    let t = if ts.is_empty() { r.range(-2., 2.) } else { *r.pick(ts) };
    let gap = t.abs().max(1e-3) * r.log(1e-2, 10.);
    match r.below(9) {
        0 => universe(),
        1 | 2 => ahead(),
        3 => Interval::new(t + gap, f64::INFINITY),
        4 => Interval::new(f64::NEG_INFINITY, t - gap),
        5 => Interval::new(t - gap, t + gap),
        6 => Interval::new(t - gap * 3., t - gap),
        7 => Interval::new(t - gap, f64::INFINITY),
        _ => Interval::new(f64::NEG_INFINITY, 0.),
    }
}

pub fn shape_of(r: &mut Rng) -> Shape {
    let size = match r.below(10) {
        0..=3 => r.log(0.3, 3.),
        4 => r.log(1e-6, 1e6),
        _ => r.log(1e-3, 1e3),
    };
    let center = match r.below(3) {
        0 => v(0., 0., 0.),
        1 => rand_in(r, size * 3.),
        _ => rand_in(r, size * 100.),
    };
    rand_shape(r, center, size)
}

pub fn sphere_uv(n: V) -> (f64, f64) {
    // Longitude seen from above, starting at -x over +z, and height as the angle from the bottom
    let lon = n.2.atan2(n.0);
    let u = (PI - lon) / (2. * PI);
    let w = (-n.1).clamp(-1., 1.).acos() / PI;
    (u, w)
}

pub fn run(run: &Run) {
    run.cases("shapes", run.n(400000, 8000000), |c| {
        let s = shape_of(&mut c.rng);
        let uvs = if c.rng.chance(0.7) {
            [rand_in(&mut c.rng, 3.), rand_in(&mut c.rng, 3.), rand_in(&mut c.rng, 3.)]
        } else {
            [v(0., 0., 0.), v(1., 0., 0.), v(0., 1., 0.)]
        };
        let object: Hittables = match &s {
            Shape::Tri(a, b, d) => Triangle::new_with_tex_coords(
                a.s(), b.s(), d.s(),
                uv(uvs[0].0, uvs[0].1), uv(uvs[1].0, uvs[1].1), uv(uvs[2].0, uvs[2].1),
                id_mat(7), &NopTransformer(),
            ),
            _ => build(&s, id_mat(7)),
        };
        c.sample(|| format!("{s:?}"));
        for _ in 0..25 {
            let Probe { o, d } = probe(&mut c.rng, &s);
            c.eval();
            let eps = if s.is_sphere() { 1e-9 } else { 1e-5 };
            let Some(all) = meets(&s, o, d, eps) else {
                c.count("grazing contacts skipped");
                continue;
            };
            if let Shape::Quad(..) | Shape::Tri(..) = s {
                // Close to parallel
                if all.iter().any(|m| m.n.dot(d.unit()).abs() < 1e-3) {
                    c.count("grazing contacts skipped");
                    continue;
                }
            }
            let ts: Vec<f64> = all.iter().map(|m| m.t).collect();
            let iv = interval(&mut c.rng, &ts);
            let reach = (o - s.center()).len() + s.size();
            let coord = o.max_abs() + s.center().max_abs() + s.size();
            let tol_t = 1e-12 * coord / d.len() * 10.;
            // Rounding may decide on contact at the very end of the interval
            if ts.iter().any(|t| (t - iv.min).abs() < 1e-9 * t.abs() + tol_t * 100. || (t - iv.max).abs() < 1e-9 * t.abs() + tol_t * 100.) {
                c.count("contacts at the end of the interval skipped");
                continue;
            }
            let want = all.iter().find(|m| m.t >= iv.min && m.t <= iv.max);
            if !all.is_empty() {
                c.distinct_f(&[o.0, o.1, o.2, d.0, d.1, d.2, iv.min, iv.max]);
            }
            let r = ray(o, d);
            let got = object.hit(&r, &iv);
            let ctx = || format!("{s:?}, ray from {o:?} to {d:?}, interval {iv:?}");
            let (m, h) = match (want, got) {
                (None, None) => {
                    c.count("misses");
                    continue;
                }
                (None, Some(h)) => return Err(format!("{}: reports a hit at {} but there is none (line meets at {ts:?})", ctx(), h.ray_length)),
                (Some(m), None) => return Err(format!("{}: reports no hit, should be at {}", ctx(), m.t)),
                (Some(m), Some(h)) => (m, h),
            };
            c.count("hits");
            let noise = 1e-12 * (coord + reach);
            // A sphere's depth is badly determined where the ray is almost tangential
            let slope = m.n.dot(d.unit()).abs().max(1e-6);
            let tol = noise / slope * 10.;
            ensure!((h.ray_length - m.t).abs() * d.len() <= tol, "{}: hit at {} should be at {}", ctx(), h.ray_length, m.t);
            let p = V::of(h.hit_point);
            ensure!(close(p, m.p, tol), "{}: hit point {p:?} should be {:?}", ctx(), m.p);
            ensure!(close(p, o + d * h.ray_length, tol), "{}: hit point {p:?} is not on the ray", ctx());
            let n = V::of(h.normal);
            ensure!((n.len() - 1.).abs() < 1e-9, "{}: normal {n:?} is not of unit length", ctx());
            let front = m.n.dot(d) < 0.;
            let facing = if front { m.n } else { -m.n };
            ensure!(
                close(n, facing, 1e-9 + tol / s.size() * 4.),
                "{}: normal {n:?} should be {facing:?}", ctx()
            );
            ensure!(h.front_face == front, "{}: front face is {}, should be {front}", ctx(), h.front_face);
            ensure!(color_id(scatter_color(&h, &r, &[])) == 7, "{}: wrong material", ctx());
            check_uv(&s, &uvs, m, &h, tol / s.size()).map_err(|e| format!("{}: {e}", ctx()))?;
        }
        Ok(())
    });

    run.cases("boxes", run.n(60000, 1000000), |c| {
        let size = if c.rng.chance(0.4) { 1. } else { c.rng.log(1e-2, 1e2) };
        let a = rand_in(&mut c.rng, size * 5.);
        let e = v(c.rng.range(0.1, 1.), c.rng.range(0.1, 1.), c.rng.range(0.1, 1.)) * size;
        // Any two opposite corners
        let (lo, hi) = (a, a + e);
        let flip = [c.rng.chance(0.5), c.rng.chance(0.5), c.rng.chance(0.5)];
        let sw = |i: usize, p: V, q: V| if flip[i] { q.get(i) } else { p.get(i) };
        let (p, q) = (
            v(sw(0, lo, hi), sw(1, lo, hi), sw(2, lo, hi)),
            v(sw(0, hi, lo), sw(1, hi, lo), sw(2, hi, lo)),
        );
        let sides = Quad::new_box(p.s(), q.s(), id_mat(3), &NopTransformer());
        c.sample(|| format!("box between {p:?} and {q:?}"));
        ensure!(sides.len() == 6, "box between {p:?} and {q:?} has {} sides", sides.len());
        let world = bvh(sides.clone());
        for _ in 0..20 {
            let inside = c.rng.chance(0.3);
            let target = lo + v(e.0 * c.rng.f(), e.1 * c.rng.f(), e.2 * c.rng.f());
            let dir = hostile_dir(&mut c.rng);
            let o = if inside { target } else { target - dir * size * c.rng.log(2., 30.) };
            let d = dir * c.rng.log(1e-2, 1e2);
            c.eval();
            c.distinct_f(&[o.0, o.1, o.2, d.0, d.1, d.2]);
            // By slabs
            let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
            let (mut in_axis, mut out_axis) = (0, 0);
            let mut all: Vec<f64> = vec![];
            for i in 0..3 {
                if d.get(i) == 0. {
                    continue;
                }
                let (x, y) = ((lo.get(i) - o.get(i)) / d.get(i), (hi.get(i) - o.get(i)) / d.get(i));
                all.push(x);
                all.push(y);
                if x.min(y) > t0 {
                    t0 = x.min(y);
                    in_axis = i;
                }
                if x.max(y) < t1 {
                    t1 = x.max(y);
                    out_axis = i;
                }
            }
            let room = (t1 - t0) * d.len() / size;
            let (t, axis) = if inside { (t1, out_axis) } else { (t0, in_axis) };
            let pt = o + d * t;
            // Away from the edges
            let clear = (0..3).filter(|&i| i != axis).all(|i| {
                (pt.get(i) - lo.get(i)).min(hi.get(i) - pt.get(i)) > 1e-4 * size
            });
            let steep = (0..3).all(|i| d.get(i) == 0. || d.unit().get(i).abs() > 1e-3);
            if room < 1e-3 || !clear || !steep || t * d.len() < 0.01 * size || t < 0.0011 {
                c.count("grazing contacts skipped");
                continue;
            }
            c.count(if inside { "boxes seen from inside" } else { "boxes seen from outside" });
            let r = ray(o, d);
            let ctx = || format!("box between {p:?} and {q:?}, ray from {o:?} to {d:?}");
            let Some(h) = world.hit(&r, &ahead()) else {
                return Err(format!("{}: no hit, should be at {t}", ctx()));
            };
            ensure!((h.ray_length - t).abs() <= 1e-9 * t.abs().max(size / d.len()) * 10., "{}: hit at {} should be at {t}", ctx(), h.ray_length);
            let mut outward = [0.; 3];
            let high = (pt.get(axis) - lo.get(axis)).abs() > (pt.get(axis) - hi.get(axis)).abs();
            outward[axis] = if high { 1. } else { -1. };
            let outward = v(outward[0], outward[1], outward[2]);
            let n = V::of(h.normal);
            ensure!(close(n, if inside { -outward } else { outward }, 1e-9), "{}: normal is {n:?}", ctx());
            ensure!(h.front_face != inside, "{}: front face is {}", ctx(), h.front_face);
            // Side faces are upright seen from outside
            let rel = v((pt.0 - lo.0) / e.0, (pt.1 - lo.1) / e.1, (pt.2 - lo.2) / e.2);
            let want = match (axis, high) {
                (0, true) => (1. - rel.2, rel.1),
                (0, false) => (rel.2, rel.1),
                (1, true) => (rel.0, 1. - rel.2),
                (1, false) => (rel.0, rel.2),
                (_, true) => (rel.0, rel.1),
                (_, false) => (1. - rel.0, rel.1),
            };
            ensure!(
                (h.uv.u as f64 - want.0).abs() < 1e-5 && (h.uv.v as f64 - want.1).abs() < 1e-5,
                "{}: texture coordinate {:?} should be {want:?}", ctx(), h.uv
            );
        }
        Ok(())
    });
}

fn check_uv(s: &Shape, uvs: &[V; 3], m: &Meet, h: &RayHit, tol: f64) -> Res {
    let Uv { u, v: w } = h.uv;
    let (u, w) = (u as f64, w as f64);
    match s {
        Shape::Quad(..) => {
            ensure!((u - m.a).abs() < 1e-5 + tol * 10. && (w - m.b).abs() < 1e-5 + tol * 10., "texture coordinate ({u}, {w}) should be ({}, {})", m.a, m.b);
        }
        Shape::Tri(..) => {
            let p = uvs[0] * (1. - m.a - m.b) + uvs[1] * m.a + uvs[2] * m.b;
            ensure!((u - p.0).abs() < 1e-4 + tol * 100. && (w - p.1).abs() < 1e-4 + tol * 100., "texture coordinate ({u}, {w}) should be ({}, {})", p.0, p.1);
        }
        Shape::Sphere(..) => {
            let (a, b) = sphere_uv(m.n);
            let ring = (1. - m.n.1 * m.n.1).sqrt();
            ensure!((w - b).abs() < 1e-6 + tol.sqrt() * 3., "texture coordinate v {w} should be {b}");
            ensure!((0. ..=1.).contains(&u) && (0. ..=1.).contains(&w), "texture coordinate ({u}, {w}) is out of range");
            if ring > 1e-3 {
                let gap = (u - a).abs();
                let gap = gap.min((1. - gap).abs());
                ensure!(gap < 1e-6 + tol / ring * 10., "texture coordinate u {u} should be {a}");
            }
        }
    }
    Ok(())
}
