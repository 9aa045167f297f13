//! Attenuation of light
use crate::core::*;
use crate::geom::*;
use crate::p15::any_mat;
use crate::p23::encode;
use crate::scene::*;
use solstrale::hittable::{ConstantMedium, Hittable, Hittables, Quad};
use solstrale::geo::transformation::NopTransformer;
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::renderer::shader::{PathTracingShader, Shader};

pub const RULE: &str = "Chains of mirrors and glass panes are laid out along paths computed independently and end at a light with a half-length, whose colour must arrive weakened by exactly 1/(1+d/h) of the whole length d; paths over matte surfaces, fuzzy metal and fog are traced with the same random numbers for different half-lengths, which must all imply the same travelled distance, and that must fit the geometry; images of a light are rendered with different look-at distances, fields of view and apertures. Non-trivial: paths that end at the light; counted by path.";

fn half(r: &mut Rng) -> f64 {
    r.log(1e-2, 1e3)
}

/// What is at a point of the path
#[derive(Clone, Debug)]
struct Stop {
    shape: Shape,
    color: V,
    /// refraction index, or none for mirrors
    index: Option<f64>,
}

struct Path {
    start: V,
    dir: V,
    stops: Vec<Stop>,
    light: Shape,
    length: f64,
    /// Products of colours up to the panes that may mirror the ray away
    astray: Vec<V>,
    total: V,
}

fn small(r: &mut Rng, at: V, n: V, size: f64) -> Shape {
    let (t, b, _) = frame(n);
    let a = r.range(0., 6.28);
    let (e1, e2) = ((t * a.cos() + b * a.sin()) * size, (b * a.cos() - t * a.sin()) * size);
    if r.chance(0.5) {
        Shape::Quad(at - e1 * 0.5 - e2 * 0.5, e1, e2)
    } else {
        let q = at - e1 / 3. - e2 / 3.;
        Shape::Tri(q, q + e1, q + e2)
    }
}

fn path(r: &mut Rng) -> Option<Path> {
    let start = rand_in(r, 10.);
    let dir = rand_dir(r);
    let k = *r.pick(&[0, 0, 1, 1, 2, 3, 5, 9]);
    let (mut p, mut d) = (start, dir);
    let mut length = 0.;
    let mut stops: Vec<Stop> = vec![];
    let mut points = vec![start];
    let mut away = vec![];
    let mut astray = vec![];
    let mut total = v(1., 1., 1.);
    for _ in 0..k {
        let l = r.log(0.5, 20.);
        p = p + d * l;
        length += l;
        let n = loop {
            let n = rand_dir(r);
            if d.dot(n) < -0.3 {
                break n;
            }
        };
        let size = r.range(0.05, 0.3);
        let glass = r.chance(0.3);
        // Either side
        let mut shape = small(r, p, n, size);
        let normal = match &shape {
            Shape::Quad(_, a, b) => a.cross(*b).unit(),
            Shape::Tri(a, b, c) => (*b - *a).cross(*c - *a).unit(),
            _ => unreachable!(),
        };
        if r.chance(0.5) {
            shape = match shape {
                Shape::Quad(q, a, b) => Shape::Quad(q, b, a),
                Shape::Tri(a, b, c) => Shape::Tri(a, c, b),
                s => s,
            };
        }
        let flipped = match &shape {
            Shape::Quad(_, a, b) => a.cross(*b).dot(normal) < 0.,
            Shape::Tri(a, b, c) => (*b - *a).cross(*c - *a).dot(normal) < 0.,
            _ => false,
        };
        let outward = if flipped { -normal } else { normal };
        let mirror = d - n * (2. * d.dot(n));
        let color = v(r.range(0.3, 1.), r.range(0.3, 1.), r.range(0.3, 1.));
        if glass {
            let index: f64 = r.range(1.05, 1.8);
            let ratio = if outward.dot(d) < 0. { 1. / index } else { index };
            let cos = -d.dot(n);
            let side = d + n * cos;
            let sin_t = side.len() * ratio;
            if sin_t > 0.9 {
                return None;
            }
            away.push((p, mirror, stops.len()));
            total = total.times(color);
            astray.push(total);
            stops.push(Stop { shape, color, index: Some(index) });
            d = (side * ratio - n * (1. - sin_t * sin_t).sqrt()).unit();
        } else {
            total = total.times(color);
            stops.push(Stop { shape, color, index: None });
            d = mirror;
        }
        points.push(p);
    }
    let l = r.log(0.5, 20.);
    let mut light = {
        let at = p + d * l;
        match r.below(3) {
            0 => Shape::Sphere(at, r.range(0.05, 0.3)),
            _ => {
                let n = loop {
                    let n = rand_dir(r);
                    if d.dot(n) < -0.3 {
                        break n;
                    }
                };
                let size = r.range(0.05, 0.3);
                small(r, at, n, size)
            }
        }
    };
    // The front has to be seen
    let m = meets(&light, p, d, 1e-3)?;
    let first = m.iter().find(|m| m.t > 0.)?;
    if first.n.dot(d) > 0. {
        light = match light {
            Shape::Quad(q, a, b) => Shape::Quad(q, b, a),
            Shape::Tri(a, b, c) => Shape::Tri(a, c, b),
            s => s,
        };
    }
    length += first.t;
    // Nothing else may be in the way
    let mut all: Vec<&Shape> = stops.iter().map(|s| &s.shape).collect();
    all.push(&light);
    for i in 0..points.len() {
        let o = points[i];
        let to = if i + 1 < points.len() { points[i + 1] } else { p + d * first.t };
        let dir = (to - o).unit();
        let len = (to - o).len();
        for (j, s) in all.iter().enumerate() {
            if i > 0 && j == i - 1 {
                continue;
            }
            for m in meets(s, o, dir, 1e-3)? {
                if m.t > 0. && m.t < len * (1. - 1e-6) || m.t > 0. && m.t < len * (1. + 1e-6) && j != i {
                    return None;
                }
            }
        }
    }
    for (o, dir, from) in &away {
        for (j, s) in all.iter().enumerate() {
            if j != *from && meets(s, *o, *dir, 1e-3)?.iter().any(|m| m.t > 0.) {
                return None;
            }
        }
    }
    Some(Path { start, dir, stops, light, length, astray, total })
}

pub fn run(run: &Run) {
    run.cases("mirrors and panes", run.n(60000, 1000000), |c| {
        let Some(path) = path(&mut c.rng) else {
            c.count("paths not usable");
            return Ok(());
        };
        let r = &mut c.rng;
        let h = r.chance(0.85).then(|| if r.chance(0.2) { path.length } else { half(r) });
        let emission = rand_color(r) * r.log(0.1, 10.);
        let back = rand_color(r);
        let mut list: Vec<Hittables> = path
            .stops
            .iter()
            .map(|s| {
                let tex = SolidColor::new_from_vec3(s.color.s());
                build(&s.shape, match s.index {
                    None => Metal::new(tex, None, 0.),
                    Some(i) => Dielectric::new(tex, None, i),
                })
            })
            .collect();
        list.push(build(&path.light, DiffuseLight::new(emission.0, emission.1, emission.2, h)));
        r.shuffle(&mut list);
        let world = bvh(list);
        let k = path.stops.len() as u32;
        let depth = k + 1 + if r.chance(0.5) { 0 } else { r.below(50) as u32 };
        let shader = PathTracingShader::new(depth);
        let renderer = tracer_with(world.clone(), back, shader.clone())?;
        let factor = h.map_or(1., |h| 1. / (1. + path.length / h));
        let want = path.total.times(emission) * factor;
        let others: Vec<V> = path.astray.iter().map(|a| a.times(back)).collect();
        let ray = ray(path.start, path.dir);
        c.sample(|| format!("{k} stops, length {}, half-length {h:?}", path.length));
        c.distinct_f(&[path.length, h.unwrap_or(-1.)]);
        let n = if path.astray.is_empty() { 2 } else { 20 };
        let mut arrived = false;
        for _ in 0..n {
            let got = sample(&renderer, &world, &shader, &ray, 0, 0.).ok_or("nothing is hit")?;
            c.eval();
            let tol = 1e-9 * (1. + want.max_abs());
            if close(got, want, tol) {
                arrived = true;
                continue;
            }
            ensure!(
                others.iter().any(|o| close(got, *o, 1e-9)),
                "light {emission:?} with half-length {h:?} arrives as {got:?} instead of {want:?} over {} stops {:?} and length {} (or {others:?}) from {:?}, start {:?} {:?}",
                k, path.stops, path.length, path.light, path.start, path.dir
            );
        }
        ensure!(arrived || path.astray.len() > 1 || n == 20 && !path.astray.is_empty() && path.stops.iter().any(|s| s.index.is_some()), "light does not arrive");
        if arrived {
            c.count("paths that end at the light");
        }
        // A length that was travelled before counts as well
        if path.stops.is_empty() {
            let before = r_log(c);
            let got = sample(&renderer, &world, &shader, &ray, 0, before).ok_or("nothing is hit")?;
            let want = emission * h.map_or(1., |h| 1. / (1. + (path.length + before) / h));
            ensure!(close(got, want, 1e-9 * (1. + want.max_abs())), "after a length of {before}, light arrives as {got:?} instead of {want:?}");
        }
        Ok(())
    });

    // The same random numbers with different half-lengths
    run.cases("scattered paths", run.n(2500, 60000), |c| {
        let r = &mut c.rng;
        // A light above something that scatters, reached over some mirrors first
        let kind = r.below(4);
        let light_at = v(r.range(-2., 2.), r.range(-2., 2.), r.range(2., 6.));
        let size = r.log(1e-2, 0.5);
        let lshape = loop {
            let s = rand_shape(r, light_at, size);
            match &s {
                Shape::Sphere(..) => break s,
                Shape::Quad(_, a, b) if a.cross(*b).unit().2 < -0.3 => break s,
                Shape::Tri(a, b, d) if (*b - *a).cross(*d - *a).unit().2 < -0.3 => break s,
                _ => continue,
            }
        };
        let hs = [None, Some(half(r)), Some(half(r))];
        let emission = v(1., 0.7, 0.4) * r.range(0.5, 5.);
        let target = v(r.range(-1., 1.), r.range(-1., 1.), 0.);
        let o = target + v(r.range(-1., 1.), r.range(-1., 1.), r.range(0.3, 1.)).unit() * r.log(0.5, 20.);
        let d = (target - o).unit();
        let bounces = if r.chance(0.5) { 2 } else { r.int(3, 8) as u32 };
        let floor = |m: Materials| {
            Quad::new(v(-50., -50., 0.).s(), v(100., 0., 0.).s(), v(0., 100., 0.).s(), m, &NopTransformer())
        };
        let wall = matte(v(0.9, 0.8, 0.7));
        let thing = match kind {
            0 => floor(matte(v(0.9, 0.8, 0.5))),
            1 => floor(Metal::new(SolidColor::new(0.9, 0.9, 0.9), None, 1.)),
            2 => {
                let m = any_mat(r);
                ConstantMedium::new(build(&Shape::Sphere(v(0., 0., 0.), 1.5), m), 2., v(0.9, 0.9, 0.9).s())
            }
            _ => floor(Blend::new(matte(v(0.9, 0.8, 0.5)), Metal::new(SolidColor::new(0.9, 0.9, 0.9), None, 1.), 0.5)),
        };
        let walls = bounces > 2 && r.chance(0.7);
        let worlds: Vec<Hittables> = hs
            .iter()
            .map(|h| {
                let mut list = vec![thing.clone(), build(&lshape, DiffuseLight::new(emission.0, emission.1, emission.2, *h))];
                if walls {
                    list.push(build(&Shape::Quad(v(-4., -50., -1.), v(0., 100., 0.), v(0., 0., 20.)), wall.clone()));
                    list.push(build(&Shape::Quad(v(4., -50., -1.), v(0., 100., 0.), v(0., 0., 20.)), solid_metal(v(0.9, 0.9, 0.9))));
                }
                bvh(list)
            })
            .collect();
        let shader = PathTracingShader::new(bounces);
        let mut renderers = vec![];
        for w in &worlds {
            renderers.push(tracer_with(w.clone(), v(0., 0., 0.), shader.clone())?);
        }
        let before = if r.chance(0.3) { r.log(0.1, 10.) } else { 0. };
        let ray = ray(o, d);
        // Distances to the light
        let reach = |p: V| match &lshape {
            Shape::Sphere(ct, rad) => ((p - *ct).len() - rad, (p - *ct).len() + rad),
            s => {
                let m = s.size();
                ((p - s.center()).len() - m, (p - s.center()).len() + m)
            }
        };
        c.distinct_f(&[o.0, light_at.1, hs[1].unwrap()]);
        let n = if bounces > 2 { 60 } else { 30 };
        for _ in 0..n {
            let seed = c.rng.next();
            let mut got = vec![];
            let mut at = None;
            for (w, re) in worlds.iter().zip(&renderers) {
                fastrand::seed(seed);
                let Some(rec) = w.hit(&ray, &ahead()) else { break };
                at = Some((V::of(rec.hit_point), rec.ray_length));
                got.push(V::of(shader.shade(re, &rec, &ray, 0, before).get_attenuated_color()));
            }
            let Some((p, t)) = at else {
                c.count("rays that pass the fog");
                continue;
            };
            c.eval();
            let tell = || format!("kind {kind}, ray {o:?} {d:?}, light {lshape:?}, half-lengths {hs:?}, {bounces} deep, colours {got:?}");
            ensure!(got.len() == 3, "random numbers differ: {}", tell());
            if got[0].max_abs() < 1e-12 {
                ensure!(got.iter().all(|g| g.max_abs() < 1e-12), "light with attenuation where is none without: {}", tell());
                c.count("paths that end elsewhere");
                continue;
            }
            let mut lengths = vec![];
            for i in 1..3 {
                let f = got[i].0 / got[0].0;
                ensure!(close(got[i], got[0] * f, 1e-9 * got[0].max_abs()), "attenuation changes the hue: {}", tell());
                ensure!(f > 0. && f <= 1., "attenuation by {f}: {}", tell());
                lengths.push(hs[i].unwrap() * (1. / f - 1.));
            }
            let (a, b) = (lengths[0] - before, lengths[1] - before);
            let tol = 1e-6 * (1. + a.abs()) + 1e-9 * (hs[1].unwrap() + hs[2].unwrap());
            ensure!((a - b).abs() < tol, "half-lengths imply different lengths {a} and {b}: {}", tell());
            // From camera to the hit, and from there to the light, perhaps not straight
            let (lo, hi) = reach(p);
            // Directly seen light, or nearer hit in fog
            if kind != 2 && p.2.abs() > 1e-6 {
                continue;
            }
            ensure!(a > t + lo - 1e-4 - tol, "length {a} is shorter than the straight way {} + {lo}: {}", t, tell());
            if bounces == 2 {
                ensure!(a < t + hi + 1e-4 + tol, "length {a} is longer than the way {} + {hi}: {}", t, tell());
            }
            c.count(if bounces == 2 { "paths with one bounce that end at the light" } else { "paths with several bounces that end at the light" });
        }
        Ok(())
    });

    // Several bounces of known length: over a matte floor and a mirror, while the light itself is hidden
    run.cases("matte and mirror", run.n(300, 6000), |c| {
        let r = &mut c.rng;
        let top = r.range(4., 8.);
        let x = v(0., 0., 0.);
        let l = v(r.range(-0.5, 0.5), r.range(-0.5, 0.5), r.range(1.5, 2.5));
        let rad = 0.3;
        let h = half(r);
        let image = v(l.0, l.1, 2. * top - l.2);
        // The mirrored way must not meet the cover
        let way = (l + image) * 0.5 - x;
        let _ = way;
        let cover = Shape::Quad(v(l.0 - 0.5, l.1 - 0.5, l.2 - 0.5), v(1., 0., 0.), v(0., 1., 0.));
        let shift = v(r.range(2., 4.), 0., 0.);
        let o = v(r.range(3., 9.), r.range(-2., 2.), r.range(1., 3.)) + shift;
        let x = x + shift;
        let d = (x - o).unit();
        let emission = v(1., 1., 1.);
        let make = |h: Option<f64>| {
            bvh(vec![
                build(&Shape::Quad(v(-50., -50., 0.), v(100., 0., 0.), v(0., 100., 0.)), matte(v(0.8, 0.8, 0.8))),
                build(&Shape::Quad(v(-50., -50., top), v(100., 0., 0.), v(0., 100., 0.)), solid_metal(v(1., 1., 1.))),
                build(&cover, matte(v(0., 0., 0.))),
                build(&Shape::Sphere(l, rad), DiffuseLight::new(emission.0, emission.1, emission.2, h)),
            ])
        };
        let (w0, w1) = (make(None), make(Some(h)));
        let shader = PathTracingShader::new(3);
        let (r0, r1) = (tracer_with(w0.clone(), v(0., 0., 0.), shader.clone())?, tracer_with(w1.clone(), v(0., 0., 0.), shader.clone())?);
        let ray = ray(o, d);
        let direct = ((x - l).len() - rad, (x - l).len() + rad);
        let over = ((x - image).len() - rad, (x - image).len() + rad);
        let t = (x - o).len();
        for _ in 0..600 {
            let seed = c.rng.next();
            fastrand::seed(seed);
            let a = sample(&r0, &w0, &shader, &ray, 0, 0.).ok_or("missed")?;
            fastrand::seed(seed);
            let b = sample(&r1, &w1, &shader, &ray, 0, 0.).ok_or("missed")?;
            c.eval();
            if a.max_abs() == 0. {
                ensure!(b.max_abs() == 0., "light with attenuation where is none without");
                continue;
            }
            let len = h * (a.0 / b.0 - 1.);
            let tol = 1e-6 * (1. + len) + 1e-9 * h;
            let within = |s: (f64, f64)| len > t + s.0 - tol && len < t + s.1 + tol;
            ensure!(within(direct) || within(over), "length {len} fits neither {t} + {direct:?} nor {t} + {over:?} (matte and mirror, top {top}, light {l:?}, hit {x:?}, half-length {h})");
            if within(over) && !within(direct) {
                c.count("paths over matte and mirror");
                c.distinct_f(&[len]);
            } else {
                c.count("paths over matte");
            }
        }
        Ok(())
    });

    // Through the camera
    run.cases("images", run.n(1500, 40000), |c| {
        let r = &mut c.rng;
        let at = rand_in(r, 10.);
        let dir = loop {
            let d = rand_dir(r);
            if d.1.abs() < 0.9 {
                break d;
            }
        };
        let dist = r.log(0.5, 50.);
        let h = half(r);
        let emission = rand_color(r) * r.log(0.3, 3.);
        let mat = DiffuseLight::new(emission.0, emission.1, emission.2, Some(h));
        // A wall of light
        let (t, b, n) = frame(-dir);
        let s = dist * 4.;
        let center = at + dir * dist;
        let mirrored = r.chance(0.3);
        let mut list = vec![];
        let mut length = dist;
        let wall = |ct: V, t: V, b: V, m: Materials| {
            Quad::new((ct - t * s - b * s).s(), (t * (2. * s)).s(), (b * (2. * s)).s(), m, &NopTransformer())
        };
        if mirrored {
            // Straight back by a mirror, past the camera
            let behind = r.range(0.2, 1.) * dist;
            list.push(wall(center, t, b, solid_metal(v(1., 1., 1.))));
            list.push(wall(at - dir * behind, b, t, mat));
            length += dist + behind;
        } else {
            list.push(wall(center, t, b, mat));
        }
        let _ = n;
        let fov = r.log(0.05, 0.5);
        let look = r.log(0.05, 500.);
        let aperture = if r.chance(0.3) { 1e-4 * dist } else { 0. };
        let mut cam = camera(at, at + dir * look, fov);
        cam.aperture_size = aperture;
        let (w, hh) = (r.int(1, 3) as usize, r.int(1, 3) as usize);
        let spp = r.int(1, 3) as u32;
        let img = render_image(scene(bvh(list), cam, v(0., 0., 0.), config(w, hh, spp, PathTracingShader::new(5))))?;
        // Rays at the corners of the view are slightly longer, and lean with the lens
        let tan = (fov.to_radians() / 2.).tan() * 2. * (1. + w as f64) + if aperture > 0. { aperture / look } else { 0. };
        let slack = length * (tan * tan + 1e-5) + 2. * aperture;
        for p in img.pixels() {
            c.eval();
            for i in 0..3 {
                let lo = encode(emission.get(i) / (1. + (length + slack) / h) * (1. - 1e-9), 1).0;
                let hi = encode(emission.get(i) / (1. + (length - slack).max(0.) / h) * (1. + 1e-9), 1).1;
                ensure!(p[i] >= lo && p[i] <= hi, "light {emission:?} with half-length {h} at length {length} (mirrored: {mirrored}) shows as {p:?} instead of {lo}..{hi}, looking at {look} with aperture {aperture}");
            }
        }
        c.count("images");
        c.distinct_f(&[length, h, look]);
        Ok(())
    });
}

fn r_log(c: &mut Case) -> f64 {
    c.rng.log(0.1, 100.)
}
