//! Fog
use crate::core::*;
use crate::geom::*;
use crate::p25::chain;
use crate::scene::*;
use crate::stats::*;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::util::interval::Interval;

pub const RULE: &str = "Fog of densities 0.001 to 100000 in spheres, boxes (also turned, scaled and moved), tetrahedra and hierarchies of these, with every kind of boundary material, is hit many times by the same ray, from outside, inside and past it, with all direction scales and length intervals: whether it scatters is tested against 1-exp(-density d) and the depths against the exponential distribution (Kolmogorov-Smirnov), where d is computed independently; every hit must be on the ray, inside the boundary, ahead of the origin and in the interval. Non-trivial: rays that cross the volume; counted by volume and ray.";

/// A convex body as the solution of plane inequalities n.p <= k, or a sphere
#[derive(Clone, Debug)]
pub enum Body {
    Ball(V, f64),
    Planes(Vec<(V, f64)>, V),
}

impl Body {
    /// Part of the line within the body, in ray lengths
    pub fn span(&self, o: V, d: V) -> Option<(f64, f64)> {
        match self {
            Body::Ball(c, r) => {
                let m = meets(&Shape::Sphere(*c, *r), o, d, 1e-4)?;
                if m.len() == 2 {
                    Some((m[0].t, m[1].t))
                } else {
                    None
                }
            }
            Body::Planes(p, _) => {
                let (mut a, mut b) = (f64::NEG_INFINITY, f64::INFINITY);
                for (n, k) in p {
                    let (s, h) = (n.dot(d), k - n.dot(o));
                    if s.abs() < 1e-12 {
                        if h < 0. {
                            return None;
                        }
                    } else if s > 0. {
                        b = b.min(h / s);
                    } else {
                        a = a.max(h / s);
                    }
                }
                (a < b).then_some((a, b))
            }
        }
    }
    pub fn center(&self) -> V {
        match self {
            Body::Ball(c, _) => *c,
            Body::Planes(_, c) => *c,
        }
    }
}

/// Some boundary material, that should not matter
pub fn any_mat(r: &mut Rng) -> Materials {
    let c = rand_color(r);
    match r.below(5) {
        0 => light(c),
        1 => solid_metal(c),
        2 => Dielectric::new(SolidColor::new(1., 1., 1.), None, 1.5),
        3 => Blend::new(matte(c), light(c), 0.5),
        _ => Lambertian::new(SolidColor::new(1., 1., 1.), Some(SolidColor::new(0.2, 0.7, 0.6))),
    }
}

/// A body with its boundary, and the shapes of the boundary
pub fn body(r: &mut Rng) -> (Body, Hittables, Vec<Shape>, &'static str) {
    let size = r.log(0.5, 20.);
    let at = rand_in(r, 20.);
    match r.below(6) {
        0 | 1 => {
            let m = any_mat(r);
            let s = Sphere::new(at.s(), size, m);
            let (b, what) = match r.below(3) {
                0 => (Bvh::new(vec![s]), "ball in a hierarchy"),
                1 => (Bvh::new(vec![Bvh::new(vec![s]), Bvh::new(vec![])]), "ball in nested hierarchies"),
                _ => (s, "ball"),
            };
            (Body::Ball(at, size), b, vec![Shape::Sphere(at, size)], what)
        }
        2 | 3 => {
            let d = v(r.range(0.3, 1.), r.range(0.3, 1.), r.range(0.3, 1.)) * size;
            let m = any_mat(r);
            let op = if r.chance(0.5) { chain(r) } else { crate::p25::Op::Chain(vec![]) };
            let sides = if r.chance(0.5) {
                Quad::new_box(at.s(), (at + d).s(), m, op.boxed().as_ref())
            } else {
                Quad::new_box((at + d).s(), at.s(), m, op.boxed().as_ref())
            };
            let q = op.apply(at, false);
            let e = [
                op.apply(v(d.0, 0., 0.), true),
                op.apply(v(0., d.1, 0.), true),
                op.apply(v(0., 0., d.2), true),
            ];
            let mut shapes = vec![];
            let mut planes = vec![];
            for i in 0..3 {
                let (a, b, n) = (e[(i + 1) % 3], e[(i + 2) % 3], e[i].unit());
                shapes.push(Shape::Quad(q, a, b));
                shapes.push(Shape::Quad(q + e[i], a, b));
                planes.push((-n, -n.dot(q)));
                planes.push((n, n.dot(q + e[i])));
            }
            let c = q + (e[0] + e[1] + e[2]) * 0.5;
            (Body::Planes(planes, c), Bvh::new(sides), shapes, "box")
        }
        _ => {
            // Tetrahedron
            let p = loop {
                let p: Vec<V> = (0..4).map(|_| at + rand_dir(r) * size).collect();
                let vol = (p[1] - p[0]).cross(p[2] - p[0]).dot(p[3] - p[0]).abs();
                if vol > 0.4 * size.powi(3) {
                    break p;
                }
            };
            let c = (p[0] + p[1] + p[2] + p[3]) / 4.;
            let m = any_mat(r);
            let mut shapes = vec![];
            let mut planes = vec![];
            let mut list = vec![];
            for i in 0..4 {
                let (a, b, e) = (p[(i + 1) % 4], p[(i + 2) % 4], p[(i + 3) % 4]);
                let mut n = (b - a).cross(e - a).unit();
                if n.dot(c - a) > 0. {
                    n = -n;
                }
                planes.push((n, n.dot(a)));
                let s = Shape::Tri(a, b, e);
                list.push(build(&s, m.clone()));
                shapes.push(s);
            }
            (Body::Planes(planes, c), Bvh::new(list), shapes, "tetrahedron")
        }
    }
}

pub fn run(run: &Run) {
    let n = 3000;
    run.cases("rays", run.n(4000, 80000), |c| {
        let r = &mut c.rng;
        let (body, boundary, shapes, what) = body(r);
        let size = shapes[0].size();
        // A ray through or past the body
        let mut found = None;
        for _ in 0..50 {
            let target = body.center() + rand_dir(r) * size * r.range(0., 1.5);
            let u = hostile_dir(r);
            let o = match r.below(3) {
                0 => target,
                _ => target - u * size * r.log(0.5, 20.),
            };
            let d = u * r.log(0.01, 100.);
            // The entry and the exit have to be told from each other
            let clear = shapes.iter().all(|s| {
                meets(s, o, d, 1e-4).is_some_and(|m| m.iter().all(|m| m.n.dot(u).abs() > 1e-3))
            });
            let Some((a, b)) = body.span(o, d) else {
                if clear && r.chance(0.3) {
                    found = Some((o, d, 1., 0.));
                    break;
                }
                continue;
            };
            if clear && (b - a) * d.len() > 0.1 && b - a > 0.003 {
                found = Some((o, d, a, b));
                break;
            }
        }
        let Some((o, d, a, b)) = found else {
            c.count("no suitable ray found");
            return Ok(());
        };
        let crosses = b > a;
        let len = (b - a).max(0.1) * d.len();
        let density = if r.chance(0.15) { r.log(10., 1e5) } else { (r.log(0.02, 5.) / len).min(100.) };
        let iv = match r.below(7) {
            0 => universe(),
            1 | 2 | 3 => ahead(),
            4 => Interval::new(a + (b - a) * r.range(-0.5, 1.), f64::INFINITY),
            5 => Interval::new(0.001, a + (b - a) * r.range(0.1, 1.2)),
            _ => {
                let x = a + (b - a) * r.range(-0.5, 0.8);
                Interval::new(x, x + (b - a) * r.range(0.1, 1.))
            }
        };
        let col = rand_color(r);
        let fog = ConstantMedium::new(boundary, density, col.s());
        // Also as part of a world
        let fog: Hittables = if r.chance(0.3) { Bvh::new(vec![fog]) } else { fog };
        let ray = ray(o, d);
        let (lo, hi) = (a.max(iv.min).max(0.), b.min(iv.max));
        let inside = if crosses { (hi - lo).max(0.) * d.len() } else { 0. };
        let p = 1. - (-density * inside).exp();
        c.count(what);
        c.count(if inside == 0. { "rays not through fog" } else if a < 0. { "rays starting inside" } else { "rays through fog" });
        if inside > 0. {
            c.distinct_f(&[o.0, d.1, density]);
        }
        c.sample(|| format!("{what} density {density}, ray {o:?} {d:?} inside from {lo} to {hi}"));
        let tell = |e: String| format!("{e}: fog of density {density} in {what} {body:?}, ray {o:?} {d:?} in {iv:?}, inside from {lo} to {hi}");
        let mut bad = None;
        let e = 1e-6 * (hi.abs() + lo.abs() + 1.);
        let mut hit = || -> Option<f64> {
            let rec = fog.hit(&ray, &iv)?;
            let t = rec.ray_length;
            if !(t >= lo - e && t <= hi + e) {
                bad = Some(format!("scatters at {t}"));
            }
            if !close(V::of(rec.hit_point), o + d * t, 1e-9 * (1. + o.len() + d.len() * t)) {
                bad = Some(format!("scatters at {:?}, which is not at {t} on the ray", rec.hit_point));
            }
            if !((V::of(rec.normal).len() - 1.).abs() < 1e-9) {
                bad = Some(format!("normal is {:?}", rec.normal));
            }
            match rec.material.scatter(&ray, &rec, std::slice::from_ref(&far_light())) {
                RayScatter::ScatterPdf(s) if V::of(s.color) == col => (),
                _ => bad = Some("scatters like something else than fog of its colour".into()),
            }
            Some((t - lo) * d.len())
        };
        if inside == 0. {
            for _ in 0..50 {
                c.eval();
                ensure!(hit().is_none(), "{}", tell("scatters".into()));
            }
            return Ok(());
        }
        // The two surfaces are told from each other with a small step
        let res = expect_frequency(c, "scattering", n, p, 1e-6, &mut || hit().is_some());
        if let Some(b) = bad {
            return Err(tell(b));
        }
        res.map_err(tell)?;
        let mut bad2 = None;
        let mut depth = || {
            for _ in 0..100000 {
                if let Some(rec) = fog.hit(&ray, &iv) {
                    return (rec.ray_length - lo) * d.len();
                }
            }
            bad2 = Some("never scatters".to_string());
            0.
        };
        if p > 0.05 {
            let res = expect_distribution(c, "depths", 1000, &|x| ((1. - (-density * x).exp()) / p).clamp(0., 1.), &mut depth);
            if let Some(b) = bad2 {
                return Err(tell(b));
            }
            res.map_err(tell)?;
        }
        c.add("rays traced", n as u64);
        Ok(())
    });

    // Dense fog behaves like a wall, thin fog like nothing
    run.cases("extremes", run.n(2000, 50000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.5, 20.);
        let at = rand_in(r, 10.);
        let dense = r.chance(0.5);
        let density = if dense { r.log(1e5, 1e9) } else { r.log(1e-12, 1e-9) };
        let boundary = match r.below(2) {
            0 => Sphere::new(at.s(), size, any_mat(r)),
            _ => {
                let h = v(size, size, size);
                Bvh::new(Quad::new_box((at - h).s(), (at + h).s(), any_mat(r), &NopTransformer()))
            }
        };
        let fog = ConstantMedium::new(boundary, density, v(1., 1., 1.).s());
        let o = at + rand_dir(r) * size * r.range(2., 10.);
        let to = at + rand_in(r, 0.4 * size);
        let scale = r.log(0.1, 10.);
        let inside = r.chance(0.3);
        let start = if inside { to } else { o };
        let d = (to - o).unit() * scale;
        let ray = ray(start, d);
        for _ in 0..10 {
            c.eval();
            match fog.hit(&ray, &ahead()) {
                None => ensure!(!dense, "ray {start:?} {d:?} passes fog of density {density}, size {size} at {at:?}"),
                Some(rec) => {
                    ensure!(dense, "ray {start:?} {d:?} scatters in fog of density {density}, size {size} at {at:?}");
                    let p = V::of(rec.hit_point) - at;
                    ensure!(p.max_abs() <= size * (1. + 1e-6), "scatters outside, at {p:?} from the middle of {size}");
                }
            }
        }
        c.distinct_f(&[o.0, to.1]);
        Ok(())
    });
}
