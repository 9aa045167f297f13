//! Sampling of lights
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use crate::stats::*;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::pdf::{mix_generate, mix_value, ContainerPdf, CosinePdf, Pdf, SpherePdf};
use std::f64::consts::PI;

pub const RULE: &str = "Spheres, parallelograms and triangles (and sets of them) are drawn directions to from points of all distances and angles, also inside spheres: each direction must hit the shape by independently computed geometry, the frequencies in cells of the shape are compared (chi-square) with the integral of the density that the shape reports, which must add up to one, must not depend on the length of the direction and must be zero for directions that miss. For sets the average of the densities and an even choice are checked. Non-trivial: every drawn direction; counted by shape and point.";

/// Cells of a shape: probability from the reported density, in quadrature
struct Cells {
    p: Vec<f64>,
    /// Of thin strips along each of the two coordinates
    strips: [Vec<f64>; 2],
}

const SIDE: usize = 8;
/// Sub-steps of the quadrature per cell and axis
const SUB: usize = 12;

fn dir_of_sphere(axis: &(V, V, V), height: f64, x: f64, y: f64) -> V {
    // Even in solid angle, accurate also for small angles
    let below = height * (1. - x);
    let z = 1. - below;
    let s = (below * (1. + z)).max(0.).sqrt();
    let phi = 2. * PI * y;
    axis.0 * (s * phi.cos()) + axis.1 * (s * phi.sin()) + axis.2 * z
}

/// Directions by two numbers between 0 and 1, with the solid angle per unit
fn direction(shape: &Shape, o: V, x: f64, y: f64) -> (V, f64) {
    match shape {
        Shape::Sphere(ct, rad) => {
            let d = *ct - o;
            let s = rad / d.len();
            if s >= 1. {
                (dir_of_sphere(&frame(v(0., 0., 1.)), 2., x, y), 4. * PI)
            } else {
                let one_minus = s * s / (1. + (1. - s * s).sqrt());
                (dir_of_sphere(&frame(d), one_minus, x, y), 2. * PI * one_minus)
            }
        }
        Shape::Quad(q, a, b) => flat(o, *q, *a, *b, x, y),
        Shape::Tri(q, a, b) => flat(o, *q, *a - *q, *b - *q, x, y),
    }
}

fn flat(o: V, q: V, a: V, b: V, x: f64, y: f64) -> (V, f64) {
    let d = q + a * x + b * y - o;
    let n = a.cross(b);
    let cos_area = (n.dot(d.unit())).abs();
    (d, cos_area / d.dot(d))
}

/// The cell a direction belongs to (the shape is known to be hit)
fn coordinates(shape: &Shape, o: V, d: V) -> Option<(f64, f64)> {
    match shape {
        Shape::Sphere(ct, rad) => {
            let to = *ct - o;
            let s = rad / to.len();
            let u = d.unit();
            let (axis, height) = if s >= 1. {
                (frame(v(0., 0., 1.)), 2.)
            } else {
                (frame(to), s * s / (1. + (1. - s * s).sqrt()))
            };
            let c = axis.2;
            // 1 - cos without cancellation
            let one_minus = (u - c).dot(u - c) / 2.;
            let x = 1. - one_minus / height;
            let y = u.dot(axis.1).atan2(u.dot(axis.0)) / (2. * PI);
            Some((x, y.rem_euclid(1.)))
        }
        Shape::Quad(q, a, b) => plane(o, d, *q, *a, *b),
        Shape::Tri(q, a, b) => plane(o, d, *q, *a - *q, *b - *q),
    }
}

fn plane(o: V, d: V, q: V, a: V, b: V) -> Option<(f64, f64)> {
    let n = a.cross(b);
    let t = n.dot(q - o) / n.dot(d);
    if !(t > 0.) {
        return None;
    }
    let w = o + d * t - q;
    let k = n.dot(n);
    Some((w.cross(b).dot(n) / k, a.cross(w).dot(n) / k))
}

/// Sub-steps of the quadrature per cell and axis
fn cells(c: &mut Case, shape: &Shape, object: &Hittables, o: V, sub: usize) -> Result<Cells, String> {
    let n = SIDE * sub;
    let mut p = vec![0.; SIDE * SIDE];
    let mut strips = [vec![0.; n], vec![0.; n]];
    let tri = matches!(shape, Shape::Tri(..));
    for i in 0..n {
        for j in 0..n {
            let (mut x, mut y) = ((i as f64 + 0.5) / n as f64, (j as f64 + 0.5) / n as f64);
            let mut weight = 1.;
            if tri {
                // Small squares on the diagonal are halved
                if i + j >= n {
                    continue;
                }
                if i + j == n - 1 {
                    x -= 1. / 6. / n as f64;
                    y -= 1. / 6. / n as f64;
                    weight = 0.5;
                }
            }
            let (d, solid) = direction(shape, o, x, y);
            let density = object.pdf_value(o.s(), d.s());
            c.eval();
            if !(density.is_finite() && density > 0.) {
                return Err(format!("{shape:?} seen from {o:?} reports density {density} towards {d:?} which hits it"));
            }
            let q = density * solid * weight / (n * n) as f64;
            p[i / sub * SIDE + j / sub] += q;
            strips[0][i] += q;
            strips[1][j] += q;
        }
    }
    Ok(Cells { p, strips })
}

fn light_shape(r: &mut Rng) -> Shape {
    let size = if r.chance(0.5) { r.log(0.3, 3.) } else { r.log(1e-2, 1e2) };
    let at = rand_in(r, 3. * size);
    rand_shape(r, at, size)
}

/// A point to be lit, not in the plane of a flat light
fn point(r: &mut Rng, s: &Shape) -> V {
    let flat = match s {
        Shape::Sphere(..) => None,
        Shape::Quad(_, a, b) => Some(a.cross(*b).unit()),
        Shape::Tri(a, b, c) => Some((*b - *a).cross(*c - *a).unit()),
    };
    if let Some(n) = flat {
        if r.chance(0.25) {
            // Far beside the light, that is seen from the side at a flat angle
            let (t, b, _) = frame(n);
            let phi = r.range(0., 2. * PI);
            let dist = s.size() * r.log(2., 10.);
            let side = if r.chance(0.5) { 1. } else { -1. };
            return s.center() + (t * phi.cos() + b * phi.sin()) * dist + n * (side * dist * r.log(1e-3, 0.1));
        }
    }
    loop {
        let o = match s {
            Shape::Sphere(c, rad) => {
                let f = match r.below(5) {
                    0 => r.range(0., 0.95),
                    1 => r.range(1.02, 1.3),
                    2 if r.chance(0.3) => r.log(2e3, 1e8),
                    2 => r.log(10., 2e3),
                    _ => r.log(1.2, 10.),
                };
                *c + rand_dir(r) * *rad * f
            }
            _ => s.center() + rand_dir(r) * s.size() * r.log(0.3, 30.),
        };
        let (q, n) = match s {
            // Rays do not hit closer than 0.001
            Shape::Sphere(c, rad) if ((o - *c).len() - rad).abs() > 0.004 => return o,
            Shape::Sphere(..) => continue,
            Shape::Quad(q, a, b) => (*q, a.cross(*b).unit()),
            Shape::Tri(a, b, c) => (*a, (*b - *a).cross(*c - *a).unit()),
        };
        let h = (o - q).dot(n).abs();
        if h > 0.1 * s.size() && h > 0.1 * (o - s.center()).len() {
            return o;
        }
    }
}

pub fn run(run: &Run) {
    run.cases("one light", run.n(900, 12000), |c| {
        let shape = light_shape(&mut c.rng);
        let object = build(&shape, light(v(1., 1., 1.)));
        let o = point(&mut c.rng, &shape);
        c.sample(|| format!("{shape:?} from {o:?}"));
        c.distinct(hash_of(format!("{shape:?}{o:?}")));
        let tri = matches!(shape, Shape::Tri(..));
        c.count(match shape {
            Shape::Sphere(q, r) if (o - q).len() < r => "spheres from inside",
            Shape::Sphere(..) => "spheres from outside",
            Shape::Quad(..) => "parallelograms",
            Shape::Tri(..) => "triangles",
        });
        let cells = cells(c, &shape, &object, o, SUB)?;
        let total: f64 = cells.p.iter().sum();
        ensure!((total - 1.).abs() < 5e-3, "density of {shape:?} from {o:?} adds up to {total}");
        let n = 20000;
        let mut bad = None;
        let mut draw = || -> usize {
            {
                let d = V::of(object.random_direction(o.s()));
                if !d.finite() || d.len() == 0. {
                    bad = Some(format!("draws direction {d:?}"));
                    return 0;
                }
                let Some((x, y)) = coordinates(&shape, o, d) else {
                    bad = Some(format!("draws direction {d:?} away from it"));
                    return 0;
                };
                let e = 1e-6;
                if x < -e || y < -e || x > 1. + e || y > 1. + e {
                    bad = Some(format!("draws direction {d:?} which misses it, at {x} {y}"));
                    return 0;
                }
                if tri && x + y > 1. + e {
                    bad = Some(format!("draws direction {d:?} which misses it, at {x} {y}"));
                    return 0;
                }
                let (i, j) = (((x * SIDE as f64) as usize).min(SIDE - 1), ((y * SIDE as f64) as usize).min(SIDE - 1));
                i * SIDE + j
            }
        };
        let res = expect_bins(c, "directions drawn", n, &cells.p, &mut draw);
        if let Some(b) = bad {
            return Err(format!("{shape:?} from {o:?} {b}"));
        }
        res.map_err(|e| format!("{shape:?} from {o:?}: {e}"))?;
        c.add("directions drawn", n as u64);
        // Nothing is left out or preferred within the cells
        for k in 0..2 {
            expect_bins(c, "strips of directions drawn", n, &cells.strips[k], &mut || {
                let d = V::of(object.random_direction(o.s()));
                let (x, y) = coordinates(&shape, o, d).unwrap_or((0., 0.));
                let steps = SIDE * SUB;
                (([x, y][k] * steps as f64) as usize).min(steps - 1)
            })
            .map_err(|e| format!("{shape:?} from {o:?}: {e} ({})", ["first coordinate", "second coordinate"][k]))?;
        }
        c.add("directions drawn", 2 * n as u64);
        // Each drawn direction is one that the object itself sees
        let mut unseen = 0;
        for _ in 0..500 {
            let d = V::of(object.random_direction(o.s()));
            let p = object.pdf_value(o.s(), d.s());
            c.eval();
            ensure!(p >= 0. && p.is_finite(), "{shape:?} from {o:?} reports density {p} towards {d:?}");
            if p == 0. {
                unseen += 1;
                // Only at the very edge
                let (x, y) = coordinates(&shape, o, d).unwrap_or((f64::NAN, f64::NAN));
                let e = 1e-4;
                let edge = match shape {
                    Shape::Sphere(..) => x < e,
                    Shape::Quad(..) => x < e || y < e || x > 1. - e || y > 1. - e,
                    Shape::Tri(..) => x < e || y < e || x + y > 1. - e,
                };
                ensure!(edge, "{shape:?} from {o:?} reports density zero towards {d:?}, which it has drawn (at {x} {y})");
            } else {
                let s = c.rng.log(1e-2, 1e2);
                let q = object.pdf_value(o.s(), (d * s).s());
                ensure!((p - q).abs() <= 1e-6 * p || unseen_edge(&shape, o, d) || unseen_edge(&shape, o, d * s), "{shape:?} from {o:?} reports density {p} towards {d:?} but {q} for {s} times that");
            }
        }
        c.add("drawn directions with density zero", unseen);
        Ok(())
    });

    run.cases("directions that miss", run.n(20000, 500000), |c| {
        let shape = light_shape(&mut c.rng);
        let object = build(&shape, light(v(1., 1., 1.)));
        let o = point(&mut c.rng, &shape);
        for _ in 0..10 {
            let d = match c.rng.below(3) {
                0 => rand_dir(&mut c.rng),
                1 => -(shape.point(&mut c.rng) - o),
                _ => shape.center() + rand_dir(&mut c.rng) * shape.size() * c.rng.range(0.5, 2.) - o,
            };
            let d = d * c.rng.log(0.1, 10.);
            let Some(m) = meets(&shape, o, d, 1e-5) else { continue };
            let hit = m.iter().any(|m| m.t > 0.);
            if m.iter().any(|m| m.t > 0. && m.t < 0.0011) {
                continue;
            }
            c.eval();
            let p = object.pdf_value(o.s(), d.s());
            ensure!(p.is_finite() && p >= 0. && (p > 0.) == hit, "{shape:?} from {o:?} reports density {p} towards {d:?} (hit: {hit})");
            c.count(if hit { "directions that hit" } else { "directions that miss" });
            c.distinct_f(&[o.0, d.1]);
        }
        Ok(())
    });

    run.cases("sets of lights", run.n(400, 6000), |c| {
        let r = &mut c.rng;
        let many = r.chance(0.2);
        let k = if many { r.int(10, 60) } else { r.int(1, 9) } as usize;
        let (apart, part) = if many { (0.97, 0.05) } else { (0.8, 0.2) };
        // Each in its own direction, so that drawn directions tell which is meant
        let o = rand_in(r, 5.);
        let mut axes: Vec<V> = vec![];
        while axes.len() < k {
            let d = rand_dir(r);
            if axes.iter().all(|a| a.dot(d) < apart) {
                axes.push(d);
            }
        }
        let shapes: Vec<Shape> = axes
            .iter()
            .map(|a| {
                let dist = r.log(0.5, 20.);
                loop {
                    let s = rand_shape(r, o + *a * dist, dist * part);
                    let facing = match &s {
                        Shape::Sphere(..) => true,
                        Shape::Quad(_, x, y) => x.cross(*y).unit().dot(*a).abs() > 0.2,
                        // The other half of the parallelogram is in the same direction
                        Shape::Tri(p, x, y) => (*x - *p).cross(*y - *p).unit().dot(*a).abs() > 0.2,
                    };
                    if facing {
                        return s;
                    }
                }
            })
            .collect();
        let lights: Vec<Hittables> = shapes.iter().map(|s| build(s, light(v(1., 1., 1.)))).collect();
        let set = ContainerPdf::new(&lights, o.s());
        for i in 0..200 {
            let d = if i % 2 == 0 { rand_dir(&mut c.rng) } else { c.rng.pick(&shapes).clone().point(&mut c.rng) - o };
            let want = lights.iter().map(|l| l.pdf_value(o.s(), d.s())).sum::<f64>() / k as f64;
            let got = set.value(d.s());
            c.eval();
            ensure!((got - want).abs() <= 1e-12 * want, "set of {k} lights reports density {got} instead of {want}");
        }
        expect_bins(c, &format!("choice among {k} lights"), 10000, &vec![1.; k], &mut || {
            let d = V::of(set.generate()).unit();
            (0..k).max_by(|a, b| axes[*a].dot(d).total_cmp(&axes[*b].dot(d))).unwrap()
        })?;
        c.distinct_f(&[o.0, k as f64]);
        c.add("choices", 10000);
        Ok(())
    });

    // Lights behind, within and beside each other
    run.cases("overlapping lights", run.n(1500, 20000), |c| {
        let r = &mut c.rng;
        let k = r.int(2, 6) as usize;
        let o = rand_in(r, 5.);
        let toward = rand_dir(r);
        let shapes: Vec<Shape> = (0..k)
            .map(|_| {
                let dist = r.log(0.5, 20.);
                let size = dist * r.range(0.1, 0.8);
                let at = o + (toward + rand_in(r, 0.3)) * dist;
                rand_shape(r, at, size)
            })
            .collect();
        let lights: Vec<Hittables> = shapes.iter().map(|s| build(s, light(v(1., 1., 1.)))).collect();
        let set = ContainerPdf::new(&lights, o.s());
        let mut several = 0;
        for i in 0..100 {
            let d = match i % 3 {
                0 => c.rng.pick(&shapes).clone().point(&mut c.rng) - o,
                1 => V::of(set.generate()),
                _ => toward + rand_in(&mut c.rng, 0.5),
            };
            let each: Vec<f64> = lights.iter().map(|l| l.pdf_value(o.s(), d.s())).collect();
            let want = each.iter().sum::<f64>() / k as f64;
            let got = set.value(d.s());
            c.eval();
            several += (each.iter().filter(|p| **p > 0.).count() > 1) as u64;
            ensure!((got - want).abs() <= 1e-12 * want, "{shapes:?} seen from {o:?} in direction {d:?} report densities {each:?}, their set {got}");
        }
        c.distinct_f(&[o.0, k as f64]);
        c.add("directions of several lights", several);
        // Draws that are weighted with the inverse of their density add up to the solid angle
        let j = c.rng.below(k as u64) as usize;
        let edge_on = |q: V, a: V, b: V| {
            let n = a.cross(b).unit();
            (q - o).dot(n).abs() < 0.2 * (a.len() + b.len()) || (q - o).dot(n).abs() < 0.2 * (shapes[j].center() - o).len()
        };
        let skip = match &shapes[j] {
            Shape::Sphere(ct, rad) => ((*ct - o).len() / rad - 1.).abs() < 0.05,
            Shape::Quad(q, a, b) => edge_on(*q, *a, *b),
            Shape::Tri(q, a, b) => edge_on(*q, *a - *q, *b - *q),
        };
        if skip {
            return Ok(());
        }
        let mut sum = 0.;
        let steps = 40;
        for x in 0..steps {
            for y in 0..steps {
                if matches!(shapes[j], Shape::Tri(..)) && x + y >= steps {
                    continue;
                }
                let (d, solid) = direction(&shapes[j], o, (x as f64 + 0.5) / steps as f64, (y as f64 + 0.5) / steps as f64);
                let half = if matches!(shapes[j], Shape::Tri(..)) && x + y == steps - 1 { 0.5 } else { 1. };
                let _ = d;
                sum += solid * half / (steps * steps) as f64;
            }
        }
        expect_mean(c, &format!("solid angle of number {j} of {shapes:?} from {o:?}"), 3000, 1., 0.02, &mut || {
            let d = V::of(set.generate());
            if lights[j].pdf_value(o.s(), d.s()) > 0. { 1. / set.value(d.s()) / sum } else { 0. }
        })
    });

    // The mixture with the scattering of the surface, as used for drawing
    run.cases("mixtures", run.n(300, 5000), |c| {
        let r = &mut c.rng;
        let o = v(0., 0., 0.);
        let shape = loop {
            let at = rand_dir(r) * 3.;
            let s = rand_shape(r, at, 1.);
            if !matches!(s, Shape::Tri(..)) {
                break s;
            }
        };
        let lights = [build(&shape, light(v(1., 1., 1.)))];
        let n = rand_dir(r);
        let surface = r.chance(0.5);
        let set = ContainerPdf::new(&lights, o.s());
        let other = if surface { CosinePdf::new(n.s()) } else { SpherePdf::new() };
        let base = |d: V| if surface { (d.unit().dot(n) / PI).max(0.) } else { 1. / (4. * PI) };
        for _ in 0..200 {
            let d = if c.rng.chance(0.5) { rand_dir(&mut c.rng) } else { shape.point(&mut c.rng) - o };
            let d = d * c.rng.log(0.5, 2.);
            let (a, b) = (set.value(d.s()), other.value(d.s()));
            c.eval();
            ensure!((b - base(d)).abs() < 1e-9, "density of the surface (cosine: {surface}) about {n:?} towards {d:?} is {b} instead of {}", base(d));
            let m = mix_value(&set, &other, d.s());
            ensure!((m - (a + b) / 2.).abs() <= 1e-12 * (a + b), "mixture of densities {a} and {b} is {m}");
        }
        // How often the light is meant: those drawn for it, and those that hit it by chance
        let Some(by_chance) = ({
            let mut h = 0.;
            let steps = 60;
            for i in 0..steps {
                for j in 0..steps {
                    let (d, solid) = direction(&shape, o, (i as f64 + 0.5) / steps as f64, (j as f64 + 0.5) / steps as f64);
                    h += base(d) * solid / (steps * steps) as f64;
                }
            }
            Some(h)
        }) else { return Ok(()) };
        expect_frequency(c, "directions of the mixture that hit the light", 20000, 0.5 + 0.5 * by_chance, 1e-3, &mut || {
            let d = V::of(mix_generate(&set, &other));
            meets(&shape, o, d, 0.).is_none_or(|m| m.iter().any(|m| m.t > 0.))
        })?;
        // And the rest follows the surface
        let (t, b, _) = frame(n);
        let hits = |d: V| meets(&shape, o, d, 0.).is_none_or(|m| m.iter().any(|m| m.t > 0.));
        expect_mean(c, "height of the directions of the mixture beside the light", 20000, {
            let steps = 400;
            let mut s = 0.;
            for i in 0..steps {
                for j in 0..steps {
                    let z = -1. + 2. * (i as f64 + 0.5) / steps as f64;
                    let phi = 2. * PI * (j as f64 + 0.5) / steps as f64;
                    let q = (1. - z * z).sqrt();
                    let d = t * (q * phi.cos()) + b * (q * phi.sin()) + n * z;
                    if !hits(d) {
                        s += 0.5 * base(d) * z * 4. * PI / (steps * steps) as f64;
                    }
                }
            }
            s
        }, 4e-3, &mut || {
            let d = V::of(mix_generate(&set, &other)).unit();
            if hits(d) { 0. } else { d.dot(n) }
        })?;
        c.distinct_f(&[n.0, n.1]);
        Ok(())
    });
}

/// Too close to the edge, or to where rays start to hit
fn unseen_edge(shape: &Shape, o: V, d: V) -> bool {
    meets(shape, o, d, 1e-4).is_none_or(|m| m.iter().any(|m| m.t > 0. && m.t < 0.002))
}
