//! Metal and glass
use crate::core::*;
use crate::geom::*;
use crate::p06::probe;
use crate::p16::{texel, texels_at, unique_image};
use crate::scene::*;
use crate::stats::*;
use solstrale::hittable::Hittable;
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use std::f64::consts::PI;
use std::sync::Arc;

pub const RULE: &str = "Every shape of metal or glass (fuzz 0 to 1.5, refraction indices 0.4 to 3, plain and normal-mapped, solid and image colours) is hit from both sides at all angles with rays of all scales. Mirror and refracted directions are compared with the laws of reflection and of Snell computed from the hit normal; which of the two happens is counted and compared with the Schlick reflectance; for fuzzy metal angle and azimuth about the mirror direction are tested against the projection of the unit-tip ball. Non-trivial: every scattering; counted by hit.";

fn texture(r: &mut Rng) -> (Textures, Option<image::RgbImage>, V) {
    if r.chance(0.3) {
        let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
        let i = unique_image(r, w, h);
        (ImageMap::new(Arc::new(i.clone())), Some(i), v(0., 0., 0.))
    } else {
        let c = rand_color(r);
        (SolidColor::new_from_vec3(c.s()), None, c)
    }
}

fn color_ok(img: &Option<image::RgbImage>, col: V, rec: &RayHit, got: V) -> bool {
    match img {
        None => got == col,
        Some(i) => texels_at(i, rec.uv).iter().any(|(x, y)| close(got, texel(i, *x, *y), 1e-12)),
    }
}

fn basic(rec: &RayHit, ray: &solstrale::geo::Ray) -> Result<(V, V, V), String> {
    match rec.material.scatter(ray, rec, &[]) {
        RayScatter::ScatterBasic(s) => Ok((V::of(s.color), V::of(s.ray.origin), V::of(s.ray.direction))),
        _ => Err("metal or glass scatters like another material".into()),
    }
}

fn mirrored(d: V, n: V) -> V {
    let d = d.unit();
    d - n * (2. * d.dot(n))
}

pub fn schlick(cos: f64, ratio: f64) -> f64 {
    let r0 = ((1. - ratio) / (1. + ratio)).powi(2);
    r0 + (1. - r0) * (1. - cos).powi(5)
}

fn map(r: &mut Rng) -> Option<Textures> {
    r.chance(0.3).then(|| SolidColor::new(r.range(0.2, 0.8), r.range(0.2, 0.8), r.range(0.75, 1.)))
}

pub fn run(run: &Run) {
    run.cases("mirrors", run.n(60000, 1500000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.1, 10.);
        let center = rand_in(r, 10.);
        let shape = rand_shape(r, center, size);
        let (tex, img, col) = texture(r);
        let object = build(&shape, Metal::new(tex, map(r), 0.));
        for _ in 0..4 {
            let p = probe(&mut c.rng, &shape);
            let ray = ray(p.o, p.d);
            let Some(rec) = object.hit(&ray, &ahead()) else { continue };
            c.eval();
            c.distinct_f(&[p.o.0, p.d.1, size]);
            let (color, o, d) = basic(&rec, &ray)?;
            let want = mirrored(p.d, V::of(rec.normal));
            ensure!(close(d.unit(), want, 1e-9), "metal {shape:?} mirrors {:?} at normal {:?} to {d:?} instead of {want:?}", p.d, rec.normal);
            ensure!(o == V::of(rec.hit_point), "ray scattered from {o:?} instead of {:?}", rec.hit_point);
            ensure!(color_ok(&img, col, &rec, color), "metal has colour {color:?} at {:?}", rec.uv);
            c.count("mirrored by metal");
        }
        Ok(())
    });

    run.cases("fuzzy metal", run.n(160, 2500), |c| {
        let r = &mut c.rng;
        let f = match c.index % 4 {
            0 => 1.,
            1 => r.log(1e-3, 0.1),
            _ => r.range(0.05, 1.5),
        };
        let shape = rand_shape(r, v(0., 0., 0.), 1.);
        let (tex, img, col) = texture(r);
        let object = build(&shape, Metal::new(tex, map(r), f));
        let (rec_again, ray, d) = loop {
            let p = probe(&mut c.rng, &shape);
            let r = ray(p.o, p.d);
            if let Some(rec) = object.hit(&r, &ahead()) {
                break (rec, r, p.d);
            }
        };
        let rec = (V::of(rec_again.hit_point), V::of(rec_again.normal), rec_again.uv);
        let want = mirrored(d, rec.1);
        let (t, b, _) = frame(want);
        c.distinct_f(&[f, d.0, rec.1 .0]);
        c.sample(|| format!("fuzz {f}, mirror direction {want:?}"));
        // Density of the angle: the length of the line within the ball, weighted with the
        // distance squared, times the ring of the directions
        let top = if f < 1. { f.asin() } else { PI };
        const N: usize = 20000;
        let mut cdf = vec![0.; N + 1];
        for i in 0..N {
            // Finer towards the upper end
            let at = |x: f64| top * (1. - (1. - x) * (1. - x));
            let (a0, a1) = (at(i as f64 / N as f64), at((i + 1) as f64 / N as f64));
            let a = (a0 + a1) / 2.;
            let disc = f * f - a.sin().powi(2);
            let mut w = 0.;
            if disc > 0. {
                let (r1, r2) = ((a.cos() - disc.sqrt()).max(0.), (a.cos() + disc.sqrt()).max(0.));
                w = a.sin() * (r2.powi(3) - r1.powi(3));
            }
            cdf[i + 1] = cdf[i] + w * (a1 - a0);
        }
        let total = cdf[N];
        let cdf_at = |a: f64| {
            let y = (a / top).clamp(0., 1.);
            let x = (1. - (1. - y).sqrt()) * N as f64;
            let i = (x as usize).min(N - 1);
            (cdf[i] + (cdf[i + 1] - cdf[i]) * (x - i as f64)) / total
        };
        let mut bad = None;
        let mut angle = || match basic(&rec_again, &ray) {
            Ok((color, o, d)) => {
                if o != rec.0 {
                    bad = Some(format!("ray scattered from {o:?} instead of {:?}", rec.0));
                }
                if !color_ok(&img, col, &rec_again, color) {
                    bad = Some(format!("metal has colour {color:?} at {:?}", rec.2));
                }
                let u = d.unit();
                let a = u.cross(want).len().atan2(u.dot(want));
                if f < 1. && a > top + 1e-7 {
                    bad = Some(format!("direction {d:?} is {a} off the mirror direction {want:?}, more than fuzz {f} allows"));
                }
                a
            }
            Err(e) => {
                bad = Some(e);
                0.
            }
        };
        let res = expect_distribution(c, &format!("angles from the mirror direction with fuzz {f}"), 20000, &cdf_at, &mut angle);
        if let Some(b) = bad {
            return Err(b);
        }
        res?;
        expect_bins(c, &format!("azimuths about the mirror direction with fuzz {f}"), 20000, &[1.; 24], &mut || {
            let (_, _, d) = basic(&rec_again, &ray).unwrap();
            let phi = d.dot(b).atan2(d.dot(t)) + PI;
            ((phi / (2. * PI) * 24.) as usize).min(23)
        })?;
        c.add("scatterings by fuzzy metal", 40000);
        Ok(())
    });

    run.cases("glass", run.n(2500, 40000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.1, 10.);
        let center = rand_in(r, 10.);
        let shape = rand_shape(r, center, size);
        let (tex, img, col) = texture(r);
        let index = match r.below(5) {
            0 => 1.,
            1 => r.range(0.4, 1.),
            _ => r.range(1., 3.),
        };
        let object = build(&shape, Dielectric::new(tex, map(r), index));
        c.sample(|| format!("{shape:?} with refraction index {index}"));
        for _ in 0..6 {
            let p = probe(&mut c.rng, &shape);
            let ray = ray(p.o, p.d);
            let Some(rec) = object.hit(&ray, &ahead()) else { continue };
            let (d, n) = (p.d.unit(), V::of(rec.normal));
            // Which side, as known from geometry
            let Some(ms) = meets(&shape, p.o, p.d, 1e-4) else { continue };
            let Some(m) = ms.iter().find(|m| m.t > 0.001) else { continue };
            if ms.iter().any(|m| (m.t - 0.001).abs() < 1e-4) || m.n.dot(d).abs() < 1e-3 {
                continue;
            }
            let cos = -d.dot(n);
            // A leaning normal may face away
            if cos < 1e-3 {
                continue;
            }
            let ratio = if m.n.dot(d) < 0. { 1. / index } else { index };
            let sin = d.cross(n).len();
            let sin_t = ratio * sin;
            if (sin_t - 1.).abs() < 1e-6 {
                continue;
            }
            let mirror = mirrored(d, n);
            let (prob, refracted) = if sin_t > 1. {
                c.count("beyond the critical angle");
                (1., mirror)
            } else {
                // In the plane of the incoming ray and the normal, on the other side
                let side = d + n * cos;
                let side = if side.len() > 1e-12 { side.unit() } else { side };
                (schlick(cos, ratio), side * sin_t - n * (1. - sin_t * sin_t).max(0.).sqrt())
            };
            c.distinct_f(&[p.o.0, p.d.1, index]);
            let mut bad = None;
            let same = prob < 1. && close(mirror, refracted, 1e-6);
            let mut draw = || {
                let (color, o, got) = match basic(&rec, &ray) {
                    Ok(x) => x,
                    Err(e) => {
                        bad = Some(e);
                        return false;
                    }
                };
                let got_u = got.unit();
                if o != V::of(rec.hit_point) {
                    bad = Some(format!("ray scattered from {o:?} instead of {:?}", rec.hit_point));
                }
                if !color_ok(&img, col, &rec, color) {
                    bad = Some(format!("glass has colour {color:?} at {:?}", rec.uv));
                }
                let is_mirror = close(got_u, mirror, 1e-7);
                if !is_mirror && (prob >= 1. || !close(got_u, refracted, 1e-6)) {
                    bad = Some(format!(
                        "glass of index {index} (ratio {ratio}) turns {d:?} at normal {n:?} to {got:?}, neither mirrored {mirror:?} nor refracted {refracted:?}"
                    ));
                }
                is_mirror
            };
            let n_draw = 400;
            let res = if same {
                (0..n_draw).for_each(|_| {
                    draw();
                });
                Ok(())
            } else {
                expect_frequency(c, &format!("mirroring at glass with ratio {ratio} and cosine {cos}"), n_draw, prob, 1e-12, &mut draw)
            };
            c.add("scatterings by glass", n_draw as u64);
            if let Some(b) = bad {
                return Err(b);
            }
            res?;
        }
        Ok(())
    });

    // All angles at once, with more samples
    run.cases("reflectance", run.n(250, 4000), |c| {
        let index = c.rng.range(1.05, 2.6);
        let inside = c.rng.chance(0.4);
        let a: f64 = match c.index % 4 {
            0 => c.rng.log(1e-4, 0.1),
            1 => PI / 2. - c.rng.log(1e-2, 0.5),
            _ => c.rng.range(0., PI / 2. - 0.02),
        };
        let ratio = if inside { index } else { 1. / index };
        let object = build(
            &Shape::Quad(v(-1., -1., 0.), v(2., 0., 0.), v(0., 2., 0.)),
            Dielectric::new(SolidColor::new(1., 1., 1.), None, index),
        );
        let s = if inside { -1. } else { 1. };
        let d = v(a.sin(), 0., -a.cos() * s);
        let ray = ray(d * -3., d);
        let rec = object.hit(&ray, &ahead()).ok_or("missed")?;
        c.distinct_f(&[index, a]);
        let p = if ratio * a.sin() > 1. { 1. } else { schlick(a.cos(), ratio) };
        expect_frequency(c, &format!("mirroring at glass of index {index} at angle {a} (inside {inside})"), 20000, p, 1e-12, &mut || {
            let (_, _, got) = basic(&rec, &ray).unwrap();
            // Mirrored rays stay on their side
            got.2 * d.2 < 0.
        })?;
        c.add("scatterings by glass", 20000);
        Ok(())
    });
}
