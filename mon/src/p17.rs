//! Normal mapping
use crate::core::*;
use crate::geom::*;
use crate::p06::probe;
use crate::p16::{texel, texels_at, unique_image};
use crate::scene::*;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittable, Hittables, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use std::sync::Arc;

pub const RULE: &str = "Spheres, parallelograms and triangles (all sizes, all placements of texture coordinates, also mirrored, degenerate and unusable ones) with solid and image normal maps on every material are hit from both sides at all angles; the reported normal is compared with the texel expressed in the frame of the directions of increasing texture coordinates, which is computed from the geometry. Non-trivial: hits with a map; counted by object, map and ray.";

struct Map {
    tex: Textures,
    image: Option<image::RgbImage>,
    color: V,
}

fn map(r: &mut Rng) -> Map {
    match r.below(5) {
        0 => {
            let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
            let i = unique_image(r, w, h);
            Map { tex: ImageMap::new(Arc::new(i.clone())), image: Some(i), color: v(0., 0., 0.) }
        }
        1 => {
            // Exactly along the axes, or without direction
            let color = match r.below(5) {
                0 => v(1., 0.5, 0.5),
                1 => v(0.5, 1., 0.5),
                2 => v(0.5, 0.5, 1.),
                3 => v(0.5, 0.5, 0.),
                _ => v(0.5, 0.5, 0.5),
            };
            Map { tex: SolidColor::new_from_vec3(color.s()), image: None, color }
        }
        _ => {
            let color = v(r.f(), r.f(), if r.chance(0.8) { r.range(0.6, 1.) } else { r.f() });
            Map { tex: SolidColor::new_from_vec3(color.s()), image: None, color }
        }
    }
}

/// The material, and whether the map has an effect on it
fn material(r: &mut Rng, m: &Map) -> (Materials, bool, &'static str) {
    let white = || SolidColor::new(1., 1., 1.);
    match r.below(6) {
        0 => (Metal::new(white(), Some(m.tex.clone()), r.f()), true, "metal"),
        1 => (Dielectric::new(white(), Some(m.tex.clone()), r.range(1., 2.)), true, "glass"),
        2 => (light(v(1., 1., 1.)), false, "light"),
        3 => match r.below(3) {
            0 => (matte(v(1., 1., 1.)), false, "matte without map"),
            1 => (solid_metal(v(1., 1., 1.)), false, "metal without map"),
            _ => (Dielectric::new(white(), None, 1.5), false, "glass without map"),
        },
        _ => (Lambertian::new(white(), Some(m.tex.clone())), true, "matte"),
    }
}

pub fn expected(texel: V, t: V, b: V, n: V) -> Option<V> {
    let k = texel * 2. - v(1., 1., 1.);
    let s = t * k.0 + b * k.1 + n * k.2;
    // Just no direction, or too close to tell
    if s.len() == 0. {
        Some(n)
    } else if s.len() < 1e-6 {
        None
    } else {
        Some(s.unit())
    }
}

pub fn run(run: &Run) {
    run.cases("hits", run.n(60000, 1500000), |c| {
        let r = &mut c.rng;
        let size = if r.chance(0.5) { r.log(0.3, 3.) } else { r.log(1e-2, 1e3) };
        let center = if r.chance(0.5) { v(0., 0., 0.) } else { rand_in(r, 5. * size) };
        let shape = rand_shape(r, center, size);
        let map = map(r);
        let (mat, effective, what) = material(r, &map);
        let mut uvs = None;
        let object = match &shape {
            Shape::Tri(a, b, d) if r.chance(0.8) => {
                let t = loop {
                    let mut t = [0.; 6];
                    for x in &mut t {
                        *x = if r.chance(0.3) { r.int(0, 1) as f64 } else { r.range(0., 4.) };
                    }
                    let k = if r.chance(0.2) { r.log(1e-3, 1e3) } else { 1. };
                    for x in &mut t {
                        *x = (*x * k) as f32 as f64;
                    }
                    let (u1, w1, u2, w2) = (t[2] - t[0], t[3] - t[1], t[4] - t[0], t[5] - t[1]);
                    let det = u1 * w2 - w1 * u2;
                    if det.abs() > 0.05 * u1.hypot(w1) * u2.hypot(w2) && det != 0. {
                        break t;
                    }
                };
                uvs = Some(t);
                Triangle::new_with_tex_coords(
                    a.s(), b.s(), d.s(), uv(t[0], t[1]), uv(t[2], t[3]), uv(t[4], t[5]), mat, &NopTransformer(),
                )
            }
            _ => build(&shape, mat),
        };
        c.sample(|| format!("{shape:?} {what} map {:?} {uvs:?}", map.color));
        for _ in 0..4 {
            let p = probe(&mut c.rng, &shape);
            let Some(ms) = meets(&shape, p.o, p.d, 1e-4) else { continue };
            let Some(m) = ms.iter().find(|m| m.t > 0.001) else { continue };
            if ms.iter().any(|m| (m.t - 0.001).abs() < 1e-4) || m.n.dot(p.d.unit()).abs() < 1e-3 {
                continue;
            }
            let ray = ray(p.o, p.d);
            let Some(rec) = object.hit(&ray, &ahead()) else {
                return Err(format!("{shape:?} is missed by {:?} {:?}", p.o, p.d));
            };
            let got = V::of(rec.normal);
            let n = if m.n.dot(p.d) < 0. { m.n } else { -m.n };
            c.eval();
            let tell = |e: String| format!("{e}: {shape:?} of {what} with map {:?} {:?}, texture coordinates {uvs:?}, ray {:?} {:?}", map.color, map.image.as_ref().map(|i| i.dimensions()), p.o, p.d);
            ensure!(got.finite() && (got.len() - 1.).abs() < 1e-9, "{}", tell(format!("normal is {got:?}")));
            // Noise of the hit point, relative to the size
            let tol = 1e-8 * (1. + (p.o - center).len() / size).powi(2);
            if !effective {
                c.count("hits without map");
                ensure!(close(got, n, tol), "{}", tell(format!("normal is {got:?} instead of {n:?}")));
                continue;
            }
            let (t, b) = match (&shape, &uvs) {
                (Shape::Sphere(..), _) => {
                    // Longitude grows towards the east as seen from below: about +y
                    let t = v(0., 1., 0.).cross(m.n);
                    if t.len() < 1e-2 {
                        c.count("hits close to a pole");
                        continue;
                    }
                    let t = t.unit();
                    (t, m.n.cross(t))
                }
                (Shape::Quad(_, a, b), _) => (a.unit(), b.unit()),
                (Shape::Tri(p0, p1, p2), Some(t)) => {
                    // P = P0 + (u - u0) dP/du + (v - v0) dP/dv
                    let (u1, w1, u2, w2) = (t[2] - t[0], t[3] - t[1], t[4] - t[0], t[5] - t[1]);
                    let det = u1 * w2 - w1 * u2;
                    let (e1, e2) = (*p1 - *p0, *p2 - *p0);
                    (((e1 * w2 - e2 * w1) / det).unit(), ((e2 * u1 - e1 * u2) / det).unit())
                }
                _ => {
                    c.count("hits without texture coordinates");
                    // No preferred direction: just the share along the normal is known
                    let k = map.color * 2. - v(1., 1., 1.);
                    if map.image.is_none() && k.len() > 0.01 {
                        let along = k.2 / k.len();
                        ensure!((got.dot(n) - along).abs() < 1e-6, "{}", tell(format!("normal {got:?} leans {} instead of {along}", got.dot(n))));
                    }
                    continue;
                }
            };
            let texels: Vec<V> = match &map.image {
                None => vec![map.color],
                Some(i) => texels_at(i, rec.uv).iter().map(|(x, y)| texel(i, *x, *y)).collect(),
            };
            let wanted: Vec<Option<V>> = texels.iter().map(|k| expected(*k, t, b, n)).collect();
            // Vectors that nearly cancel out magnify the noise
            let ok = wanted.iter().any(|w| w.is_none_or(|w| close(got, w, tol * 100.)));
            ensure!(ok, "{}", tell(format!("normal is {got:?} instead of {wanted:?} (texels {texels:?}, frame {t:?} {b:?} {n:?})")));
            c.count(match shape {
                Shape::Sphere(..) => "mapped hits of spheres",
                Shape::Quad(..) => "mapped hits of parallelograms",
                Shape::Tri(..) => "mapped hits of triangles",
            });
            c.count(if m.n.dot(p.d) < 0. { "mapped hits from the front" } else { "mapped hits from behind" });
            c.distinct_f(&[p.o.0, p.d.1, size]);
        }
        Ok(())
    });

    // The frame is that of the texture coordinates that the object itself reports
    run.cases("directions of the coordinates", run.n(20000, 400000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.3, 30.);
        let shape = rand_shape(r, v(0., 0., 0.), size);
        let make = |m: V| -> Box<dyn Fn(&[f64; 6]) -> Hittables> {
            let shape = shape.clone();
            Box::new(move |t| {
                let mat = Lambertian::new(SolidColor::new(1., 1., 1.), Some(SolidColor::new_from_vec3(m.s())));
                match &shape {
                    Shape::Tri(a, b, d) => Triangle::new_with_tex_coords(
                        a.s(), b.s(), d.s(), uv(t[0], t[1]), uv(t[2], t[3]), uv(t[4], t[5]), mat, &NopTransformer(),
                    ),
                    s => build(s, mat),
                }
            })
        };
        let t = loop {
            let t = [r.f(), r.f(), r.f(), r.f(), r.f(), r.f()];
            if ((t[2] - t[0]) * (t[5] - t[1]) - (t[3] - t[1]) * (t[4] - t[0])).abs() > 0.1 {
                break t;
            }
        };
        let along_u = make(v(1., 0.5, 0.5))(&t);
        let along_v = make(v(0.5, 1., 0.5))(&t);
        let p = shape.point(r);
        let d = rand_dir(r);
        let Some(m) = meets(&shape, p - d * size * 3., d, 0.02) else { return Ok(()) };
        let Some(m) = m.first() else { return Ok(()) };
        if m.n.dot(d).abs() < 0.2 || shape.is_sphere() && (m.n.1.abs() > 0.98 || m.n.2.abs() < 0.05 && m.n.0 < 0.) {
            return Ok(());
        }
        let ray0 = ray(p - d * size * 3., d);
        let (Some(a), Some(b)) = (along_u.hit(&ray0, &ahead()), along_v.hit(&ray0, &ahead())) else {
            return Err(format!("{shape:?} is missed"));
        };
        let (tu, tv) = (V::of(a.normal), V::of(b.normal));
        // A small step along the surface changes the one coordinate upwards and leaves the other
        for (dir, is_u) in [(tu, true), (tv, false)] {
            c.eval();
            let h = 1e-2 * size;
            let look = |s: f64| {
                let q = m.p + dir * (h * s);
                along_u.hit(&ray(q - d * size * 3., d), &ahead()).map(|r| (r.uv.u as f64, r.uv.v as f64))
            };
            let (Some(lo), Some(hi)) = (look(-0.5), look(0.5)) else { continue };
            let (du, dv) = (hi.0 - lo.0, hi.1 - lo.1);
            let (up, other) = if is_u { (du, dv) } else { (dv, du) };
            ensure!(dir.dot(m.n).abs() < 1e-6, "{shape:?}: direction of {} is {dir:?}, not along the surface with normal {:?}", if is_u { "u" } else { "v" }, m.n);
            ensure!(up > 0. && other.abs() < 0.05 * up + 1e-4, "{shape:?}: a step along {dir:?} (towards {}) at {:?} changes the texture coordinate by {du}, {dv}", if is_u { "u" } else { "v" }, m.p);
            c.count("steps along the surface");
        }
        c.distinct_f(&[p.0, d.1]);
        Ok(())
    });

    // Whatever the texture coordinates are, normals are finite and of unit length
    run.cases("unusable coordinates", run.n(30000, 500000), |c| {
        let r = &mut c.rng;
        let map = map(r);
        let (mat, _, what) = material(r, &map);
        let shape = match r.below(3) {
            0 => {
                let rad = r.log(0.1, 100.);
                let at = rand_in(r, 3.);
                Shape::Sphere(at, rad)
            }
            _ => loop {
                let size = r.log(0.1, 10.);
                let s = rand_shape(r, v(0., 0., 0.), size);
                if matches!(s, Shape::Tri(..)) {
                    break s;
                }
            },
        };
        let (object, ray, text) = match &shape {
            Shape::Sphere(ct, rad) => {
                // Exactly at or very close to the poles
                let side = r.sign();
                let off = if r.chance(0.5) { v(0., 0., 0.) } else { v(r.normal(), 0., r.normal()) * *rad * r.log(1e-12, 1e-3) };
                let inside = r.chance(0.5);
                let o = *ct + off + v(0., side * *rad * if inside { 0. } else { 3. }, 0.);
                let d = v(0., if inside { side } else { -side }, 0.);
                (build(&shape, mat), ray(o, d), format!("pole of {shape:?}, {o:?} {d:?}"))
            }
            Shape::Tri(a, b, d) => {
                let mut t = [0f32; 6];
                let kind = r.below(6);
                for (i, x) in t.iter_mut().enumerate() {
                    *x = match kind {
                        0 => 0.3,
                        1 => i as f32 * 0.1,
                        2 => *r.pick(&[0., 1., f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN]),
                        3 => *r.pick(&[0., f32::MIN_POSITIVE, 1e-45, 1e-20]),
                        4 => *r.pick(&[0., 1.]),
                        _ => r.sign() as f32 * r.log(1e-38, 1e38) as f32,
                    };
                }
                let p = shape.point(r);
                let dir = rand_dir(r);
                let o = solstrale::geo::Uv::new(t[0], t[1]);
                let obj = Triangle::new_with_tex_coords(
                    a.s(), b.s(), d.s(), o, solstrale::geo::Uv::new(t[2], t[3]), solstrale::geo::Uv::new(t[4], t[5]), mat, &NopTransformer(),
                );
                (obj, ray(p - dir * 20., dir), format!("{shape:?} with texture coordinates {t:?}"))
            }
            _ => unreachable!(),
        };
        if let Some(rec) = object.hit(&ray, &ahead()) {
            c.eval();
            c.count("hits");
            let n = V::of(rec.normal);
            ensure!(n.finite() && (n.len() - 1.).abs() < 1e-9, "normal is {n:?} at {text} of {what} with map {:?}", map.color);
            c.distinct(hash_of(&text));
        }
        Ok(())
    });
}
