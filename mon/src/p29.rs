//! Preview shaders
use crate::core::*;
use crate::geom::*;
use crate::p06::probe;
use crate::p16::{texel, texels_at, unique_image};
use crate::p23::encode;
use crate::scene::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Sphere};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use solstrale::renderer::shader::{AlbedoShader, NormalShader, Shader, Shaders, SimpleShader};
use std::sync::Arc;

pub const RULE: &str = "First hits on every shape with every material (solid and image colours, lights with and without attenuation from both sides, fog, blends) are shaded by the three preview shaders with different depths, lengths, other objects and lights, and compared with the colour and with the normal known from geometry; small images of the three shaders are rendered and compared with the encoded colours, also where nothing is hit. Non-trivial: each shaded hit; counted by shape, material and ray.";

struct Skin {
    mat: Materials,
    /// Possible colours, depending on texture coordinate and side
    what: &'static str,
    image: Option<image::RgbImage>,
    colors: Vec<V>,
    is_light: bool,
}

fn skin(r: &mut Rng) -> Skin {
    let col = if r.chance(0.2) { rand_color(r) * 5. } else { rand_color(r) };
    let solid = |c: V| SolidColor::new_from_vec3(c.s());
    let mut image = None;
    let mut colors = vec![col];
    let tex: Textures = if r.chance(0.4) {
        let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
        let i = unique_image(r, w, h);
        image = Some(i.clone());
        ImageMap::new(Arc::new(i))
    } else {
        solid(col)
    };
    match r.below(6) {
        0 => Skin { mat: Lambertian::new(tex, None), what: "matte", image, colors, is_light: false },
        1 => Skin { mat: Metal::new(tex, None, r.range(0., 1.)), what: "metal", image, colors, is_light: false },
        2 => Skin { mat: Dielectric::new(tex, None, r.range(1., 2.)), what: "glass", image, colors, is_light: false },
        3 => {
            let other = rand_color(r);
            colors.push(other);
            let f = *r.pick(&[0., 0.3, 1.]);
            if f == 0. {
                colors.pop();
            } else if f == 1. {
                colors.remove(0);
            }
            Skin {
                mat: Blend::new(Lambertian::new(solid(col), None), Metal::new(solid(other), None, 0.1), f),
                what: "blend",
                image: None,
                colors,
                is_light: false,
            }
        }
        _ => {
            let h = r.chance(0.6).then(|| r.log(1e-2, 1e2));
            Skin { mat: DiffuseLight::new(col.0, col.1, col.2, h), what: "light", image: None, colors, is_light: true }
        }
    }
}

fn others(r: &mut Rng, far: bool) -> Hittables {
    let mut list = vec![];
    for _ in 0..r.int(0, 4) {
        let at = v(0., 0., if far { 5000. } else { 0. }) + rand_in(r, 50.);
        let s = rand_shape(r, at, 3.);
        let c = rand_color(r);
        list.push(build(&s, if r.chance(0.5) { matte(c) } else { light(c) }));
    }
    list.push(far_light());
    bvh(list)
}

fn three() -> [(Shaders, &'static str); 3] {
    [(AlbedoShader::new(), "albedo"), (NormalShader::new(), "normal"), (SimpleShader::new(), "simple")]
}

fn wanted(which: &str, color: V, n: V, is_light: bool) -> V {
    match which {
        "albedo" => color,
        "normal" => n,
        _ if is_light => color,
        _ => color * (0.75 + 0.5 * n.dot(v(1., 1., -1.))),
    }
}

pub fn run(run: &Run) {
    run.cases("first hits", run.n(60000, 1000000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.1, 10.);
        let center = rand_in(r, 10.);
        let shape = rand_shape(r, center, size);
        let skin = skin(r);
        let object = build(&shape, skin.mat.clone());
        let o1 = others(r, true);
        let o2 = others(r, false);
        let renderers = [tracer(o1, rand_color(r), 5)?, tracer_with(o2, rand_color(r), SimpleShader::new())?];
        c.sample(|| format!("{shape:?} {}", skin.what));
        for _ in 0..6 {
            let p = probe(&mut c.rng, &shape);
            let Some(ms) = meets(&shape, p.o, p.d, 1e-4) else { continue };
            let Some(m) = ms.iter().find(|m| m.t > 0.001) else { continue };
            if ms.iter().any(|m| (m.t - 0.001).abs() < 1e-4) || m.n.dot(p.d.unit()).abs() < 1e-3 {
                continue;
            }
            let ray = ray(p.o, p.d);
            let Some(rec) = object.hit(&ray, &ahead()) else {
                return Err(format!("{shape:?} is missed by {:?} {:?}", p.o, p.d));
            };
            let front = m.n.dot(p.d) < 0.;
            let n = if front { m.n } else { -m.n };
            let mut colors = skin.colors.clone();
            if let Some(i) = &skin.image {
                colors = texels_at(i, rec.uv).iter().map(|(x, y)| texel(i, *x, *y)).collect();
            }
            if skin.is_light && !front {
                colors = vec![v(0., 0., 0.)];
            }
            let ntol = 1e-9 * (1. + (p.o - center).len() / size).powi(2);
            c.count(skin.what);
            c.distinct_f(&[p.o.0, p.o.1, p.d.2, size]);
            for (shader, which) in three() {
                for renderer in &renderers {
                    let depth = *c.rng.pick(&[0, 1, 5, 50, u32::MAX]);
                    let length = *c.rng.pick(&[0., 1., 1e6, f64::INFINITY]);
                    c.eval();
                    let got = V::of(shader.shade(renderer, &rec, &ray, depth, length).get_attenuated_color());
                    ensure!(
                        colors.iter().any(|k| close(got, wanted(which, *k, n, skin.is_light), ntol * (1. + k.max_abs()) * 4.)),
                        "{which} shader shows {got:?} for {} {shape:?} of colour {colors:?} hit by {:?} {:?} with normal {n:?} (front {front}, depth {depth}, length {length})",
                        skin.what, p.o, p.d
                    );
                }
            }
        }
        Ok(())
    });

    run.cases("fog", run.n(500, 10000), |c| {
        let col = rand_color(&mut c.rng);
        let fog = ConstantMedium::new(Sphere::new(v(0., 0., 0.).s(), 1., matte(v(1., 0., 0.))), 50., col.s());
        let o = others(&mut c.rng, true);
        let renderer = tracer(o, rand_color(&mut c.rng), 5)?;
        let o = rand_dir(&mut c.rng) * 3.;
        let ray = ray(o, (rand_in(&mut c.rng, 0.3) - o).unit());
        let Some(rec) = fog.hit(&ray, &ahead()) else { return Ok(()) };
        for (shader, which) in three() {
            c.eval();
            c.count("fog");
            let got = V::of(shader.shade(&renderer, &rec, &ray, 3, 2.).get_attenuated_color());
            match which {
                "albedo" => ensure!(close(got, col, 1e-12), "albedo shader shows {got:?} for fog of colour {col:?}"),
                "normal" => ensure!((got.len() - 1.).abs() < 1e-9 && close(got, V::of(rec.normal), 1e-12), "normal shader shows {got:?} for fog"),
                _ => {
                    let want = wanted(which, col, V::of(rec.normal), false);
                    ensure!(close(got, want, 1e-9), "simple shader shows {got:?} for fog instead of {want:?}");
                }
            }
        }
        c.distinct_f(&[o.0, o.1]);
        Ok(())
    });

    // Whole images: left half is an object, right half is open
    run.cases("images", run.n(150, 3000), |c| {
        let r = &mut c.rng;
        let back = rand_color(r);
        let col = rand_color(r);
        let is_light = r.chance(0.3);
        let away = r.chance(0.3);
        let dist = r.log(2., 20.);
        // Towards the camera or away from it: u x v is the front
        let (e1, e2) = (v(-1000., 0., 0.), v(0., 2000., 0.));
        let q = v(0., -1000., 5. - dist);
        let shape = if away { Shape::Quad(q, e1, e2) } else { Shape::Quad(q, e2, e1) };
        let mat = if is_light {
            let h = r.chance(0.5).then(|| r.log(0.1, 10.));
            DiffuseLight::new(col.0, col.1, col.2, h)
        } else {
            matte(col)
        };
        let world = bvh(vec![build(&shape, mat), far_light()]);
        let (w, h) = (2 * r.int(2, 9) as usize, r.int(2, 9) as usize);
        let spp = r.int(1, 4) as u32;
        let shown = if is_light && away { v(0., 0., 0.) } else { col };
        for (shader, which) in three() {
            let img = render_image(scene(
                world.clone(), camera(v(0., 0., 5.), v(0., 0., 0.), 50.), back, config(w, h, spp, shader),
            ))?;
            let left = wanted(which, shown, v(0., 0., 1.), is_light);
            for (x, y, p) in img.enumerate_pixels() {
                let x = x as usize;
                // Skip the columns that see the edge
                if x + 1 == w / 2 || x == w / 2 {
                    continue;
                }
                let want = if x < w / 2 { left } else { back };
                c.eval();
                for i in 0..3 {
                    let sum: f64 = (0..spp).map(|_| want.get(i)).sum();
                    let (lo, hi) = encode(sum, spp);
                    ensure!(
                        p[i] >= lo && p[i] <= hi,
                        "{which} shader: pixel {x},{y} of {w}x{h} is {p:?}, should be the encoding of {want:?} (light {is_light}, away {away})"
                    );
                }
            }
            c.count("images");
        }
        c.distinct_f(&[back.0, col.0, w as f64, h as f64]);
        Ok(())
    });
}
