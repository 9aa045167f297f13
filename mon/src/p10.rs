//! Matte and fog scattering
use crate::core::*;
use crate::geom::*;
use crate::p16::{texel, texels_at, unique_image};
use crate::scene::*;
use crate::stats::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables};
use solstrale::material::texture::{ImageMap, SolidColor};
use solstrale::material::*;
use std::f64::consts::PI;
use std::sync::Arc;

pub const RULE: &str = "Matte surfaces of every shape, side, normal map and orientation, and fog, are scattered from in the presence of one to four sphere, parallelogram and triangle lights all around (also below the surface and enclosing the point): the means of the reported probability factor times several light distributions over the directions (constant, wide, narrow towards lights) are tested against quadrature over the hemisphere or sphere; every factor is checked to be finite, non-negative and zero below the surface, every colour to be the texture's. Non-trivial: every scattering; counted by surface, light set and distribution.";

/// Functions of the direction that stand for the incoming light
#[derive(Clone, Copy, Debug)]
enum Light {
    One,
    Wide(V),
    Narrow(V, f64),
    Square(V),
}

impl Light {
    fn at(&self, d: V) -> f64 {
        match self {
            Light::One => 1.,
            Light::Wide(a) => 0.5 + 0.5 * d.dot(*a),
            Light::Narrow(a, k) => (k * (d.dot(*a) - 1.)).exp(),
            Light::Square(a) => d.dot(*a).powi(2),
        }
    }
}

/// Integral of the light with the cosine (or without) over the hemisphere (or sphere)
fn integral(g: &Light, n: Option<V>) -> f64 {
    let (k, m) = match g {
        Light::Narrow(..) => (300, 600),
        _ => (120, 120),
    };
    let (t, b, w) = frame(n.unwrap_or(v(0., 0., 1.)));
    let lo = if n.is_some() { 0. } else { -1. };
    let mut sum = 0.;
    for i in 0..k {
        let z = lo + (1. - lo) * (i as f64 + 0.5) / k as f64;
        let s = (1. - z * z).sqrt();
        let f = if n.is_some() { z / PI } else { 1. / (4. * PI) };
        let mut ring = 0.;
        for j in 0..m {
            let p = 2. * PI * (j as f64 + 0.5) / m as f64;
            ring += g.at(t * (s * p.cos()) + b * (s * p.sin()) + w * z);
        }
        sum += ring * f;
    }
    sum * (1. - lo) * 2. * PI / (k * m) as f64
}

fn lights(r: &mut Rng, p: V) -> (Vec<Hittables>, Vec<V>) {
    let n = r.int(1, 4);
    let mut list = vec![];
    let mut dirs = vec![];
    for _ in 0..n {
        let d = rand_dir(r);
        let dist = r.log(0.3, 30.);
        let at = p + d * dist;
        let s = loop {
            match r.below(5) {
                0 => {
                    // Around the point
                    let rad = r.log(2., 20.);
                    break Shape::Sphere(p + rand_dir(r) * rad * r.range(0., 0.9), rad);
                }
                1 | 2 => break Shape::Sphere(at, dist * r.log(0.05, 0.9)),
                _ => {
                    let size = dist * r.log(0.1, 2.);
                    let (a, b) = rand_edges(r, size);
                    let q = at - a * 0.5 - b * 0.5;
                    // Not in the plane of it
                    if (p - q).dot(a.cross(b).unit()).abs() > 0.02 * dist {
                        break if r.chance(0.4) { Shape::Tri(q, q + a, q + b) } else { Shape::Quad(q, a, b) };
                    }
                }
            }
        };
        let c = rand_color(r);
        list.push(build(&s, light(c)));
        dirs.push(d);
    }
    (list, dirs)
}

fn distributions(r: &mut Rng, dirs: &[V]) -> Vec<Light> {
    vec![
        Light::One,
        Light::Wide(rand_dir(r)),
        Light::Narrow(*r.pick(dirs), r.log(1., 60.)),
        Light::Narrow(rand_dir(r), r.log(1., 60.)),
        Light::Square(rand_dir(r)),
    ]
}

pub fn run(run: &Run) {
    let n = 6000;
    run.cases("matte", run.n(2000, 30000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.5, 50.);
        let at = rand_in(r, 10.);
        let shape = rand_shape(r, at, size);
        let col = rand_color(r);
        let image = r.chance(0.3).then(|| {
            let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
            unique_image(r, w, h)
        });
        let tex = image.as_ref().map_or(SolidColor::new_from_vec3(col.s()), |i| ImageMap::new(Arc::new(i.clone())));
        let map = r.chance(0.3).then(|| SolidColor::new(r.range(0.2, 0.8), r.range(0.2, 0.8), r.range(0.7, 1.)));
        let object = build(&shape, Lambertian::new(tex, map));
        let p = shape.point(r);
        let d = hostile_dir(r);
        let ray = ray(p - d * r.log(0.1, 20.), d * r.log(0.1, 10.));
        let Some(rec) = object.hit(&ray, &ahead()) else { return Ok(()) };
        let p = V::of(rec.hit_point);
        let normal = V::of(rec.normal);
        let (lights, dirs) = lights(r, p);
        let gs = distributions(r, &dirs);
        let expected: Vec<f64> = gs.iter().map(|g| integral(g, Some(normal))).collect();
        c.sample(|| format!("{shape:?} normal {normal:?} {gs:?} with lights {lights:?}"));
        c.distinct_f(&[p.0, normal.1, lights.len() as f64]);
        let mut bad = None;
        let res = expect_means(c, "weighted light", n, &expected, 1e-3, &mut |out| {
            let RayScatter::ScatterPdf(s) = rec.material.scatter(&ray, &rec, &lights) else {
                bad = Some("matte scatters like another material".to_string());
                return;
            };
            let color = V::of(s.color);
            let color_ok = match &image {
                None => color == col,
                Some(i) => texels_at(i, rec.uv).iter().any(|(x, y)| close(color, texel(i, *x, *y), 1e-12)),
            };
            if !color_ok {
                bad = Some(format!("colour is {color:?} at {:?}", rec.uv));
            }
            if s.ray.origin != rec.hit_point {
                bad = Some(format!("ray scattered from {:?} instead of {:?}", s.ray.origin, rec.hit_point));
            }
            let d = V::of(s.ray.direction).unit();
            let cos = d.dot(normal);
            let mut w = s.probability;
            if w.is_nan() && cos < 1e-9 {
                // No weight is as good as none
                w = 0.;
            }
            if !(w >= 0. && w.is_finite()) || !d.finite() {
                bad = Some(format!("weight is {w} towards {d:?}, {cos} above the surface"));
            }
            if cos < -1e-9 && w > 0. {
                bad = Some(format!("weight is {w} towards {d:?}, which is below the surface by {cos}"));
            }
            for (o, g) in out.iter_mut().zip(&gs) {
                *o = if w > 0. { w * g.at(d) } else { 0. };
            }
        });
        let tell = |e: String| format!("{e}: matte {shape:?} at {p:?} normal {normal:?}, light {gs:?}, lights {lights:?}");
        if let Some(b) = bad {
            return Err(tell(b));
        }
        res.map_err(tell)?;
        c.add("scatterings by matte surfaces", n as u64);
        Ok(())
    });

    run.cases("fog", run.n(1000, 15000), |c| {
        let r = &mut c.rng;
        let col = rand_color(r);
        let at = rand_in(r, 10.);
        let fog = ConstantMedium::new(build(&Shape::Sphere(at, 1.), matte(v(1., 1., 1.))), 100., col.s());
        let d = rand_dir(r);
        let ray = ray(at - d * 3., d * r.log(0.1, 10.));
        let Some(rec) = fog.hit(&ray, &ahead()) else { return Ok(()) };
        let p = V::of(rec.hit_point);
        let (lights, dirs) = lights(r, p);
        let gs = distributions(r, &dirs);
        let expected: Vec<f64> = gs.iter().map(|g| integral(g, None)).collect();
        c.sample(|| format!("fog at {p:?} {gs:?} with lights {lights:?}"));
        c.distinct_f(&[p.0, p.1, lights.len() as f64]);
        let mut bad = None;
        let res = expect_means(c, "weighted light", n, &expected, 1e-3, &mut |out| {
            let RayScatter::ScatterPdf(s) = rec.material.scatter(&ray, &rec, &lights) else {
                bad = Some("fog scatters like another material".to_string());
                return;
            };
            if V::of(s.color) != col {
                bad = Some(format!("colour is {:?} instead of {col:?}", s.color));
            }
            if s.ray.origin != rec.hit_point {
                bad = Some(format!("ray scattered from {:?} instead of {:?}", s.ray.origin, rec.hit_point));
            }
            let d = V::of(s.ray.direction).unit();
            let w = s.probability;
            if !(w >= 0. && w.is_finite()) || !d.finite() {
                bad = Some(format!("weight is {w} towards {d:?}"));
            }
            for (o, g) in out.iter_mut().zip(&gs) {
                *o = w * g.at(d);
            }
        });
        let tell = |e: String| format!("{e}: fog at {p:?}, light {gs:?}, lights {lights:?}");
        if let Some(b) = bad {
            return Err(tell(b));
        }
        res.map_err(tell)?;
        c.add("scatterings by fog", n as u64);
        Ok(())
    });

    // Of a constant light exactly the cosine-weighted (or spherical) mean arrives, which is
    // one, so the factors average to one however the lights lie. Many draws of it resolve
    // deviations of a part in five hundred.
    let n = 2_000_000;
    run.cases("constant light, very many draws", run.n(32, 400), |c| {
        let r = &mut c.rng;
        let at = rand_in(r, 10.);
        let fog = r.chance(0.5);
        let (object, ray) = if fog {
            let fog = ConstantMedium::new(build(&Shape::Sphere(at, 1.), matte(v(1., 1., 1.))), 100., rand_color(r).s());
            let d = rand_dir(r);
            (fog, ray(at - d * 3., d))
        } else {
            let shape = rand_shape(r, at, 1.);
            let p = shape.point(r);
            let d = rand_dir(r);
            (build(&shape, matte(rand_color(r))), ray(p - d, d))
        };
        let Some(rec) = object.hit(&ray, &ahead()) else { return Ok(()) };
        let p = V::of(rec.hit_point);
        // Lights that cover much and little
        let lights: Vec<_> = if r.chance(0.5) {
            lights(r, p).0
        } else {
            (0..r.int(1, 6))
                .map(|_| {
                    let dist = r.log(0.3, 30.);
                    build(&Shape::Sphere(p + rand_dir(r) * dist, dist * r.log(0.02, 0.3)), light(v(1., 1., 1.)))
                })
                .collect()
        };
        c.distinct_f(&[p.0, p.1, lights.len() as f64]);
        let res = expect_mean(c, "factor", n, 1., 3e-4, &mut || match rec.material.scatter(&ray, &rec, &lights) {
            RayScatter::ScatterPdf(s) if s.probability > 0. => s.probability,
            _ => 0.,
        });
        c.add("scatterings of constant light", n as u64);
        res.map_err(|e| format!("{e}: {} at {p:?}, lights {lights:?}", if fog { "fog" } else { "matte" }))
    });
}
