//! Path-traced brightness
use crate::core::*;
use crate::geom::*;
use crate::p11::schlick;
use crate::p23::encode;
use crate::scene::*;
use crate::stats::*;
use solstrale::hittable::{ConstantMedium, Hittables};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::renderer::shader::PathTracingShader;
use std::f64::consts::PI;

pub const RULE: &str = "Scenes whose radiance is known in closed form or by quadrature: matte surfaces under sphere, parallelogram and triangle lights (form factors; several lights; lights seen from behind; occluders that hide all or an exactly known part), uniform surroundings, an integrating sphere with several bounces, mirror chains, glass panes (Schlick), fog (transmission and single scattering), depth limits from zero up, and directly seen lights and background through the renderer. Means of many path-traced samples are compared with it in two stages. Non-trivial: every traced sample; counted by scene.";


/// Integral of cosine over pi over the polygon, seen from p with normal n (all above the horizon)
fn form_factor(p: V, n: V, corners: &[V]) -> f64 {
    let mut s = 0.;
    for i in 0..corners.len() {
        let a = (corners[i] - p).unit();
        let b = (corners[(i + 1) % corners.len()] - p).unit();
        let x = a.cross(b);
        let sin = x.len();
        if sin < 1e-15 {
            continue;
        }
        s += sin.atan2(a.dot(b)) * x.dot(n) / sin;
    }
    (s / (2. * PI)).abs()
}

fn trace(c: &mut Case, what: &str, world: Hittables, back: V, depth: u32, o: V, d: V, expected: V, n: usize, tol: f64) -> Res {
    let shader = PathTracingShader::new(depth);
    let renderer = tracer_with(world.clone(), back, shader.clone())?;
    let ray = ray(o, d);
    let mut bad = None;
    let res = expect_means(c, what, n, &expected.arr(), tol, &mut |out| {
        match sample(&renderer, &world, &shader, &ray, 0, 0.) {
            Some(s) => {
                if !(s.finite() && s.0 >= 0. && s.1 >= 0. && s.2 >= 0.) {
                    bad = Some(format!("{what}: sample is {s:?}"));
                }
                out.copy_from_slice(&s.arr());
            }
            None => bad = Some(format!("{what}: nothing is hit")),
        }
    });
    if let Some(b) = bad {
        return Err(b);
    }
    c.add("samples traced", n as u64);
    res
}

/// A matte surface at the point, the material in front, and a ray to see it with
struct Patch {
    p: V,
    n: V,
    object: Hittables,
    o: V,
    d: V,
    albedo: V,
}

fn patch(r: &mut Rng) -> Patch {
    let p = rand_in(r, 5.);
    let n = rand_dir(r);
    let albedo = v(r.range(0.1, 1.), r.range(0.1, 1.), r.range(0.1, 1.));
    let (t, b, _) = frame(n);
    // Small, seen from one of its sides
    let s = 0.05;
    let side = r.chance(0.5);
    let object = match r.below(3) {
        0 => build(&Shape::Sphere(p - n * s, s), matte(albedo)),
        1 => {
            let (a, b) = if side { (t, b) } else { (b, t) };
            build(&Shape::Quad(p - (a + b) * (s / 2.), a * s, b * s), matte(albedo))
        }
        _ => {
            let (a, b) = if side { (t, b) } else { (b, t) };
            let q = p - (a + b) * (s / 3.);
            build(&Shape::Tri(q, q + a * s, q + b * s), matte(albedo))
        }
    };
    let d = loop {
        let d = rand_dir(r);
        if d.dot(n) < -0.2 {
            break d;
        }
    };
    Patch { p, n, object, o: p - d * r.log(0.1, 0.4), d, albedo }
}

/// A light that lights the point from above: shape and form factor
fn lamp(r: &mut Rng, p: V, n: V, triangles: bool) -> (Shape, f64) {
    loop {
        let dir = rand_dir(r);
        let dist = r.log(1., 20.);
        let at = p + dir * dist;
        let size = dist * if r.chance(0.25) { r.log(2e-3, 0.05) } else { r.log(0.05, 0.8) };
        match r.below(if triangles { 3 } else { 2 }) {
            0 => {
                let rad = size * 0.5;
                let sin = rad / dist;
                // All above the surface
                if dir.dot(n) > sin + 0.01 {
                    return (Shape::Sphere(at, rad), sin * sin * dir.dot(n));
                }
            }
            k => {
                let (a, b) = rand_edges(r, size);
                let q = at - a * 0.5 - b * 0.5;
                let corners = if k == 1 { vec![q, q + a, q + a + b, q + b] } else { vec![q, q + a, q + b] };
                let h = (p - q).dot(a.cross(b).unit());
                if corners.iter().any(|k| (*k - p).unit().dot(n) < 0.02) || h.abs() < 0.1 * dist {
                    continue;
                }
                let f = form_factor(p, n, &corners);
                let s = if k == 1 { Shape::Quad(q, a, b) } else { Shape::Tri(q, q + a, q + b) };
                // From the front only
                return (s, if h > 0. { f } else { 0. });
            }
        }
    }
}

fn corners(s: &Shape) -> Vec<V> {
    match s {
        Shape::Quad(q, a, b) => vec![*q, *q + *a, *q + *a + *b, *q + *b],
        Shape::Tri(a, b, c) => vec![*a, *b, *c],
        Shape::Sphere(..) => vec![],
    }
}

fn far_dark() -> Hittables {
    build(&Shape::Sphere(v(0., 1e5, 0.), 1.), light(v(0., 0., 0.)))
}

pub fn run(run: &Run) {
    let n = 6000;
    run.cases("matte under lights", run.n(2500, 40000), |c| {
        let r = &mut c.rng;
        let pt = patch(r);
        let k = *r.pick(&[1, 1, 2, 3, 6]);
        let mut list = vec![pt.object.clone()];
        let mut e = v(0., 0., 0.);
        let mut text = vec![];
        let mut shapes: Vec<Shape> = vec![];
        let far = 25.;
        for _ in 0..k {
            let (s, f) = lamp(r, pt.p, pt.n, true);
            // Lights must not hide each other: by direction
            let dir = (s.center() - pt.p).unit();
            let ang = |s: &Shape| {
                let m = match s {
                    Shape::Sphere(_, rad) => *rad,
                    s => corners(s).iter().map(|k| (*k - s.center()).len()).fold(0., f64::max),
                };
                let x = m / (s.center() - pt.p).len();
                if x < 1. { x.asin() } else { PI }
            };
            let mine = ang(&s);
            if shapes.iter().any(|o| (o.center() - pt.p).unit().dot(dir).clamp(-1., 1.).acos() < ang(o) + mine + 0.02) {
                continue;
            }
            // Nor hide the patch from the camera
            if meets(&s, pt.o, pt.d, 1e-3).is_none_or(|m| m.iter().any(|m| m.t > 0. && m.t < (pt.p - pt.o).len() * 1.1)) {
                continue;
            }
            // 2 is the largest factor of the mixture
            // Small ones shine brighter
            let col = rand_color(r) * if f > 0. && f < 0.01 { 0.02 / f } else { 1.4 };
            e = e + col.times(pt.albedo) * f;
            text.push(format!("{s:?} {col:?}"));
            list.push(build(&s, light(col)));
            shapes.push(s);
        }
        if shapes.is_empty() {
            return Ok(());
        }
        let depth = *r.pick(&[2, 2, 3, 50]);
        let _ = far;
        let what = format!("matte {:?} at {:?} with normal {:?} seen from {:?} under {}", pt.albedo, pt.p, pt.n, pt.o, text.join(", "));
        c.sample(|| what.clone());
        c.distinct(hash_of(&what));
        trace(c, &what, bvh(list), v(0., 0., 0.), depth, pt.o, pt.d, e, n, 1e-3)
    });

    run.cases("occluders", run.n(600, 10000), |c| {
        let r = &mut c.rng;
        let pt = patch(r);
        let (s, _) = lamp(r, pt.p, pt.n, false);
        let Shape::Quad(q, a, b) = s else { return Ok(()) };
        // The front towards the point
        let (a, b) = if (pt.p - q).dot(a.cross(b)) > 0. { (a, b) } else { (b, a) };
        let f = |corners: &[V]| form_factor(pt.p, pt.n, corners);
        let all = f(&[q, q + a, q + a + b, q + b]);
        // A part of the light, moved towards the point, hides just that part
        let (x0, x1) = (r.range(-0.3, 0.6), r.range(0.4, 1.3));
        let (y0, y1) = (r.range(-0.3, 0.6), r.range(0.4, 1.3));
        if x1 - x0 < 0.1 || y1 - y0 < 0.1 {
            return Ok(());
        }
        let clip = |x: f64| x.clamp(0., 1.);
        let (cx0, cx1, cy0, cy1) = (clip(x0), clip(x1), clip(y0), clip(y1));
        let hidden = f(&[
            q + a * cx0 + b * cy0, q + a * cx1 + b * cy0, q + a * cx1 + b * cy1, q + a * cx0 + b * cy1,
        ]);
        let k = r.range(0.5, 0.95);
        let part = |x: f64, y: f64| pt.p + (q + a * x + b * y - pt.p) * k;
        let o0 = part(x0, y0);
        let shape = Shape::Quad(o0, part(x1, y0) - o0, part(x0, y1) - o0);
        if meets(&shape, pt.o, pt.d, 1e-3).is_none_or(|m| m.iter().any(|m| m.t > 0.)) || meets(&Shape::Quad(q, a, b), pt.o, pt.d, 1e-3).is_none_or(|m| m.iter().any(|m| m.t > 0.)) {
            return Ok(());
        }
        let col = rand_color(r) * 1.4;
        let e = pt.albedo.times(col) * (all - hidden);
        let m = match r.below(3) {
            0 => solid_metal(v(0., 0., 0.)),
            1 => light(v(0., 0., 0.)),
            _ => matte(v(0., 0., 0.)),
        };
        let list = vec![pt.object.clone(), build(&Shape::Quad(q, a, b), light(col)), build(&shape, m)];
        let depth = *r.pick(&[2, 3, 10]);
        let what = format!("matte {:?} at {:?} with normal {:?} under parallelogram light {q:?} {a:?} {b:?} {col:?} hidden by {shape:?}", pt.albedo, pt.p, pt.n);
        c.distinct(hash_of(&what));
        c.count("occluders");
        trace(c, &what, bvh(list), v(0., 0., 0.), depth, pt.o, pt.d, e, n, 1e-3)
    });

    run.cases("uniform surroundings", run.n(500, 8000), |c| {
        let r = &mut c.rng;
        // Convex bodies in even light look like their colour times that light
        let pt = patch(r);
        let back = rand_color(r) * 1.4;
        let depth = *r.pick(&[2, 3, 50]);
        let what = format!("matte {:?} at {:?} with normal {:?} in surroundings of {back:?}", pt.albedo, pt.p, pt.n);
        c.distinct(hash_of(&what));
        let e = pt.albedo.times(back);
        trace(c, &what, bvh(vec![pt.object, far_dark()]), back, depth, pt.o, pt.d, e, n, 1e-3)
    });

    run.cases("integrating sphere", run.n(150, 2000), |c| {
        let r = &mut c.rng;
        let big = r.log(1., 20.);
        let f = r.range(0.1, 0.6);
        let center = rand_in(r, 5.);
        let a = v(r.range(0.1, 0.5), r.range(0.1, 0.5), r.range(0.1, 0.5));
        let l = rand_color(r) * 1.4;
        let depth = *r.pick(&[1, 2, 3, 4, 6, 30]);
        // Each bounce sees the light with share f^2, and the wall otherwise
        let s = f * f;
        let mut w = v(0., 0., 0.);
        for _ in 1..depth {
            w = a.times(l * s + w * (1. - s));
        }
        let world = bvh(vec![
            build(&Shape::Sphere(center, big), matte(a)),
            build(&Shape::Sphere(center, big * f), light(l)),
        ]);
        // Just past the lamp onto the wall
        let (t, _, d) = frame(rand_dir(r));
        let o = center + t * big * (f + (1. - f) * r.range(0.1, 0.8));
        let back = v(5., 5., 5.);
        let what = format!("wall of a hollow sphere of colour {a:?} and radius {big} with lamp {l:?} of {f} of its radius, {depth} deep");
        c.distinct(hash_of(&what));
        c.count("integrating spheres");
        trace(c, &what, world, back, depth, o, d, w, n, 1e-3)
    });

    run.cases("glass panes", run.n(300, 5000), |c| {
        let r = &mut c.rng;
        let index = r.range(1.05, 2.5);
        let inside = r.chance(0.5);
        let a: f64 = r.range(0., 1.4);
        let ratio = if inside { index } else { 1. / index };
        let p = if ratio * a.sin() > 1. { 1. } else { schlick(a.cos(), ratio) };
        let col = rand_color(r);
        let l = rand_color(r) * 1.4;
        let back = rand_color(r);
        let d = v(a.sin(), 0., -a.cos());
        // A wall of light far behind the pane; mirrored rays see the background
        let pane = if inside { Shape::Quad(v(-1., -1., 0.), v(0., 2., 0.), v(2., 0., 0.)) } else { Shape::Quad(v(-1., -1., 0.), v(2., 0., 0.), v(0., 2., 0.)) };
        let world = bvh(vec![
            build(&pane, Dielectric::new(SolidColor::new_from_vec3(col.s()), None, index)),
            build(&Shape::Quad(v(-500., -500., -2.), v(1000., 0., 0.), v(0., 1000., 0.)), light(l)),
        ]);
        let sin_t = (ratio * a.sin()).min(1.);
        if sin_t > 0.99 && p < 1. {
            return Ok(());
        }
        let e = col.times(back * p + l * (1. - p));
        let what = format!("pane of colour {col:?}, index {index}, at angle {a} (inside {inside}), light {l:?}, surroundings {back:?}");
        c.distinct(hash_of(&what));
        c.count("panes");
        trace(c, &what, world, back, 5, d * -3., d, e, n, 1e-3)
    });

    run.cases("fog", run.n(300, 5000), |c| {
        let r = &mut c.rng;
        let density = r.log(0.05, 2.);
        let col = rand_color(r);
        let l = rand_color(r) * 1.4;
        if r.chance(0.5) {
            // A light behind fog; one deep, so that nothing is scattered in
            let off = r.range(0., 0.8);
            let chord = 2. * (1. - off * off as f64).sqrt();
            let fog = ConstantMedium::new(build(&Shape::Sphere(v(0., 0., 0.), 1.), matte(v(1., 0., 0.))), density, col.s());
            let wall = build(&Shape::Quad(v(-50., -50., -2.), v(100., 0., 0.), v(0., 100., 0.)), light(l));
            let world = bvh(vec![fog, wall]);
            let e = l * (-density * chord).exp();
            let what = format!("light {l:?} behind {chord} of fog of density {density}");
            c.distinct(hash_of(&what));
            c.count("lights behind fog");
            return trace(c, &what, world, v(0., 0., 0.), 1, v(off, 0., 4.), v(0., 0., -1.), e, n, 1e-3);
        }
        // Scattered once towards the light
        let dist = r.range(2.5, 8.);
        let rad = r.range(0.2, 1.);
        let dir = rand_dir(r);
        if dir.2.abs() > 0.8 {
            return Ok(());
        }
        let lamp = Shape::Sphere(dir * dist, rad);
        let fog = ConstantMedium::new(build(&Shape::Sphere(v(0., 0., 0.), 1.), matte(v(1., 0., 0.))), density, col.s());
        let off = r.range(0., 0.8);
        let half = (1. - off * off as f64).sqrt();
        let mut s = 0.;
        let (m, k) = (60, 12);
        for i in 0..m {
            let t = 2. * half * (i as f64 + 0.5) / m as f64;
            let p = v(off, 0., half - t);
            let to = dir * dist - p;
            let sin = rad / to.len();
            let lo = (1. - sin * sin).sqrt();
            let (x, y, z) = frame(to);
            let mut ring = 0.;
            for a in 0..k {
                for b in 0..k {
                    let h = lo + (1. - lo) * (a as f64 + 0.5) / k as f64;
                    let q = (1. - h * h).sqrt();
                    let phi = 2. * PI * (b as f64 + 0.5) / k as f64;
                    let w = x * (q * phi.cos()) + y * (q * phi.sin()) + z * h;
                    // Way out of the ball
                    let pw = p.dot(w);
                    let out = -pw + (pw * pw + 1. - p.dot(p)).max(0.).sqrt();
                    ring += (-density * out).exp();
                }
            }
            let solid = 2. * PI * (1. - lo);
            s += density * (-density * t).exp() * ring / (k * k) as f64 * solid / (4. * PI) * 2. * half / m as f64;
        }
        let e = col.times(l) * s;
        let world = bvh(vec![fog, build(&lamp, light(l))]);
        let what = format!("fog of colour {col:?} and density {density}, {off} off the middle, lit by {lamp:?} {l:?}");
        c.distinct(hash_of(&what));
        c.count("lit fog");
        // The ray may pass: then there is nothing
        let shader = PathTracingShader::new(2);
        let renderer = tracer_with(world.clone(), v(0., 0., 0.), shader.clone())?;
        let ray = ray(v(off, 0., 4.), v(0., 0., -1.));
        expect_means(c, &what, n * 2, &e.arr(), 1e-3, &mut |out| {
            let s = sample(&renderer, &world, &shader, &ray, 0, 0.).unwrap_or_default();
            out.copy_from_slice(&s.arr());
        })?;
        c.add("samples traced", n as u64 * 2);
        Ok(())
    });

    // What is black, and what is exact
    run.cases("depth", run.n(4000, 100000), |c| {
        let r = &mut c.rng;
        // A number of mirrors straight in front of each other, then a light or nothing
        let k = if r.chance(0.2) { r.int(7, 40) } else { r.int(0, 6) } as u32;
        let max = match r.below(4) {
            0 => k.saturating_add_signed(r.int(-2, 2) as i32),
            1 => r.int(0, 60) as u32,
            _ => r.int(0, 9) as u32,
        };
        let back = rand_color(r);
        let l = rand_color(r) * r.log(0.1, 10.);
        let ends_at_light = r.chance(0.5);
        // Zigzag between two rows of mirrors
        let (o, d) = (v(0., 0., 0.), v(1., 1., 0.).unit());
        let mut list = vec![far_dark()];
        let mut total = v(1., 1., 1.);
        for i in 0..k {
            let y = if i % 2 == 0 { 1. } else { 0. };
            let x = 1. + i as f64;
            let col = v(r.range(0.3, 1.), r.range(0.3, 1.), r.range(0.3, 1.));
            total = total.times(col);
            let fog_free = Shape::Quad(v(x - 0.3, y, -0.3), v(0.6, 0., 0.), v(0., 0., 0.6));
            list.push(build(&fog_free, solid_metal(col)));
        }
        if ends_at_light {
            let y = if k % 2 == 0 { 1. } else { 0. };
            list.push(build(&Shape::Sphere(v(1. + k as f64, y, 0.), 0.1), light(l)));
        }
        let end = if ends_at_light { l } else { back };
        let world = bvh(list);
        // Hits are shaded as long as their depth is less than the maximum
        let hits = k + ends_at_light as u32;
        let want = if hits <= max { total.times(end) } else { v(0., 0., 0.) };
        c.eval();
        c.distinct_f(&[k as f64, max as f64, l.0]);
        let shader = PathTracingShader::new(max);
        let renderer = tracer_with(world.clone(), back, shader.clone())?;
        let got = sample(&renderer, &world, &shader, &ray(o, d), 0, 0.);
        match got {
            None => ensure!(hits == 0, "nothing is hit"),
            Some(g) => ensure!(close(g, want, 1e-12 * (1. + want.max_abs())), "path of {hits} hits (at most {max}) shows {g:?} instead of {want:?}"),
        }
        c.count(if hits <= max { "complete paths" } else { "paths that are too deep" });
        // Matte surfaces end at the maximum depth as well
        let pt = patch(&mut c.rng);
        let world = bvh(vec![pt.object.clone(), far_dark()]);
        for (max, depth) in [(0, 0), (1, 1), (5, 5), (3, 7)] {
            let shader = PathTracingShader::new(max);
            let renderer = tracer_with(world.clone(), back, shader.clone())?;
            let got = sample(&renderer, &world, &shader, &ray(pt.o, pt.d), depth, 0.).ok_or("missed")?;
            c.eval();
            ensure!(got == v(0., 0., 0.), "depth {depth} of at most {max} shows {got:?}");
        }
        Ok(())
    });

    run.cases("images", run.n(400, 8000), |c| {
        let r = &mut c.rng;
        // Lights seen directly, mirrored, and the background, through the renderer
        let back = rand_color(r) * *r.pick(&[1., 3.]);
        let l = rand_color(r) * *r.pick(&[1., 10.]);
        let kind = r.below(3);
        let mut list = vec![far_dark()];
        let m = v(r.range(0.3, 1.), r.range(0.3, 1.), r.range(0.3, 1.));
        let want = match kind {
            0 => {
                list.push(build(&Shape::Quad(v(-500., -500., 0.), v(1000., 0., 0.), v(0., 1000., 0.)), light(l)));
                l
            }
            1 => {
                list.push(build(&Shape::Quad(v(-500., -500., 0.), v(1000., 0., 0.), v(0., 1000., 0.)), solid_metal(m)));
                m.times(back)
            }
            _ => back,
        };
        let (w, h) = (r.int(1, 6) as usize, r.int(1, 6) as usize);
        let spp = r.int(1, 3) as u32;
        let max = r.int(2, 20) as u32;
        let img = render_image(scene(bvh(list), camera(v(0., 0., 5.), v(0., 0., 0.), 40.), back, config(w, h, spp, PathTracingShader::new(max))))?;
        for p in img.pixels() {
            c.eval();
            for i in 0..3 {
                let (lo, hi) = encode(want.get(i), 1);
                let near = encode(want.get(i) * (1. - 1e-12), 1).0;
                ensure!(p[i] >= lo.min(near) && p[i] <= hi, "pixel is {p:?} instead of {want:?} encoded (kind {kind})");
            }
        }
        c.count("images");
        c.distinct_f(&[want.0, want.1]);
        Ok(())
    });
}
