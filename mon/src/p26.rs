//! Any scene at all
use crate::core::*;
use crate::geom::*;
use crate::hooks::workers;
use crate::p25::chain;
use crate::scene::*;
use image::{Rgb, RgbImage};
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::{NopTransformer, Transformer};
use solstrale::geo::vec3::Vec3;
use solstrale::geo::Uv;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::{ImageMap, SolidColor, Textures};
use solstrale::material::*;
use solstrale::post::*;
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderConfig, RenderImageStrategy};
use solstrale::util::interval::RAY_INTERVAL;
use std::sync::Arc;
use std::time::Duration;

pub const RULE: &str = "Random scenes from a grammar over the whole public API (spheres, parallelograms, boxes, triangles, fog, hierarchies, all nested and transformed, also degenerate ones without extent; all materials, textures, normal maps including those of zero length, and nested blends; lights of all shapes and strengths) are asked for light samples along rays from inside and outside: each has to be finite, not negative, at most as bright as the brightest thing in the scene where no surface amplifies, and at most the cap where the first hit is matte or fog. The scenes are then rendered with random shaders, post processors, strategies, cameras, workers and sizes, and have to complete with all reports and an image of the right size, or to be refused exactly when there is no light. Extreme finite inputs (sizes of 0, cameras that look nowhere, coordinates up to 1e300) must not panic. Non-trivial: samples whose ray hits something; counted by scene and ray.";

struct Gen<'a> {
    r: &'a mut Rng,
    /// How often something degenerate is made
    degenerate: f64,
    /// Largest surface colour
    amplify: f64,
    /// Brightest emission
    brightest: f64,
    lights: usize,
    in_fog: bool,
    objects: usize,
    kinds: Vec<&'static str>,
}

impl Gen<'_> {
    fn color(&mut self) -> V {
        let c = rand_color(self.r);
        match self.r.below(8) {
            0 => v(0., 0., 0.),
            1 => v(1., 1., 1.),
            2 => v(c.0.round(), c.1.round(), c.2.round()),
            3 if self.amplify > 1. => c * self.amplify,
            _ => c,
        }
    }
    fn texture(&mut self, normal: bool) -> Textures {
        if self.r.chance(0.3) {
            let (w, h) = (self.r.int(1, 5) as u32, self.r.int(1, 5) as u32);
            let r = &mut *self.r;
            let mode = r.below(3);
            ImageMap::new(Arc::new(RgbImage::from_fn(w, h, |_, _| match mode {
                0 => Rgb([128, 127, 128]),
                _ => Rgb([r.below(256) as u8, r.below(256) as u8, r.below(256) as u8]),
            })))
        } else if normal {
            let c = match self.r.below(4) {
                0 => v(0.5, 0.5, 0.5),
                1 => v(0.5, 0.5, 0.),
                _ => rand_color(self.r),
            };
            SolidColor::new_from_vec3(c.s())
        } else {
            let c = self.color();
            SolidColor::new_from_vec3(c.s())
        }
    }
    fn normal(&mut self) -> Option<Textures> {
        self.r.chance(0.3).then(|| self.texture(true))
    }
    fn emission(&mut self) -> Materials {
        let c = match self.r.below(4) {
            0 => v(1., 1., 1.) * self.r.log(1e-3, 1e5),
            1 => v(0., 0., 0.),
            2 => v(self.r.log(0.1, 100.), 0., self.r.f()),
            _ => rand_color(self.r) * 10.,
        };
        let half = self.r.chance(0.4).then(|| self.r.log(1e-9, 1e9));
        self.brightest = self.brightest.max(c.max_abs());
        DiffuseLight::new(c.0, c.1, c.2, half)
    }
    fn surface(&mut self, nest: u32) -> Materials {
        match self.r.below(if nest > 0 { 9 } else { 7 }) {
            0..=2 => {
                let (t, n) = (self.texture(false), self.normal());
                Lambertian::new(t, n)
            }
            3 | 4 => {
                let fuzz = *self.r.pick(&[0., 0., 0.1, 0.5, 1., 2., 1e6]);
                let (t, n) = (self.texture(false), self.normal());
                Metal::new(t, n, fuzz)
            }
            5 | 6 => {
                let index = *self.r.pick(&[1., 1.3, 1.5, 2.4, 0.6, 0.05, 100., 1. + 1e-12]);
                let (t, n) = (self.texture(false), self.normal());
                Dielectric::new(t, n, index)
            }
            _ => {
                let a = self.surface(nest - 1);
                let b = if self.r.chance(0.3) { self.emission() } else { self.surface(nest - 1) };
                let f = *self.r.pick(&[0., 1., 0.5, 0.2]);
                if self.r.chance(0.5) {
                    Blend::new(a, b, f)
                } else {
                    Blend::new(b, a, f)
                }
            }
        }
    }
    fn material(&mut self) -> (Materials, bool) {
        if self.r.chance(0.2) {
            (self.emission(), true)
        } else {
            (self.surface(2), false)
        }
    }
    fn note(&mut self, kind: &'static str, sides: usize, light: bool) {
        self.objects += sides;
        self.kinds.push(kind);
        if light && !self.in_fog {
            self.lights += sides;
        }
    }
    fn edge(&mut self, size: f64) -> V {
        if self.r.chance(0.3) {
            axis_dir(self.r) * size
        } else {
            rand_dir(self.r) * size * self.r.range(0.1, 1.)
        }
    }
    fn shape(&mut self) -> Vec<Hittables> {
        let (m, light) = self.material();
        let size = if self.r.chance(0.1) { self.r.log(1e-4, 1e3) } else { self.r.log(0.2, 5.) };
        let at = rand_in(self.r, 5.);
        let op = if self.r.chance(0.3) { chain(self.r) } else { crate::p25::Op::Nop };
        let op: Box<dyn Transformer> = op.boxed();
        let bad = self.r.chance(self.degenerate);
        match self.r.below(6) {
            0 | 1 => {
                self.note(if bad { "points" } else { "spheres" }, 1, light);
                vec![Sphere::new(at.s(), if bad { 0. } else { size }, m)]
            }
            2 => {
                let (mut a, mut b) = (self.edge(size), self.edge(size));
                if bad {
                    match self.r.below(3) {
                        0 => b = a * self.r.range(-2., 2.),
                        1 => b = v(0., 0., 0.),
                        _ => (a, b) = (v(0., 0., 0.), v(0., 0., 0.)),
                    }
                }
                self.note(if bad { "degenerate parallelograms" } else { "parallelograms" }, 1, light);
                vec![Quad::new(at.s(), a.s(), b.s(), m, op.as_ref())]
            }
            3 => {
                let mut d = v(self.r.f(), self.r.f(), self.r.f()) * size;
                if bad {
                    match self.r.below(3) {
                        0 => d = v(d.0, 0., d.2),
                        1 => d = v(0., d.1, 0.),
                        _ => d = v(0., 0., 0.),
                    }
                }
                self.note(if bad { "flat boxes" } else { "boxes" }, 6, light);
                Quad::new_box(at.s(), (at + d).s(), m, op.as_ref())
            }
            _ => {
                let (a, mut b) = (self.edge(size), self.edge(size));
                if bad {
                    match self.r.below(3) {
                        0 => b = a * self.r.range(-2., 2.),
                        1 => b = a,
                        _ => b = v(0., 0., 0.),
                    }
                }
                self.note(if bad { "degenerate triangles" } else { "triangles" }, 1, light);
                let (p, q, s) = (at.s(), (at + a).s(), (at + b).s());
                if self.r.chance(0.5) {
                    vec![Triangle::new(p, q, s, m, op.as_ref())]
                } else {
                    let r = &mut *self.r;
                    let mut t = || match r.below(4) {
                        0 => Uv::new(0., 0.),
                        1 => Uv::new(r.range(-1e6, 1e6) as f32, 1e-30),
                        _ => Uv::new(r.range(-2., 2.) as f32, r.range(-2., 2.) as f32),
                    };
                    Triangle::new_with_tex_coords(p, q, s, t(), t(), t(), m, op.as_ref()).into_vec()
                }
            }
        }
    }
    fn object(&mut self, nest: u32) -> Vec<Hittables> {
        match self.r.below(if nest > 0 { 9 } else { 6 }) {
            0..=5 => self.shape(),
            6 | 7 => {
                self.kinds.push("hierarchies");
                let n = self.r.below(6);
                let list = (0..n).flat_map(|_| self.object(nest - 1)).collect();
                vec![Bvh::new(list)]
            }
            _ => {
                self.kinds.push("fog");
                let was = std::mem::replace(&mut self.in_fog, true);
                let inner = self.object(nest - 1);
                self.in_fog = was;
                let boundary = if inner.len() == 1 && self.r.chance(0.7) {
                    inner.into_iter().next().unwrap()
                } else {
                    Bvh::new(inner)
                };
                let density = *self.r.pick(&[0., 1e-6, 0.1, 0.5, 2., 100., 1e12]);
                let c = self.color();
                vec![ConstantMedium::new(boundary, density, c.s())]
            }
        }
    }
}

trait IntoVec {
    fn into_vec(self) -> Vec<Hittables>;
}
impl IntoVec for Hittables {
    fn into_vec(self) -> Vec<Hittables> {
        vec![self]
    }
}

fn a_camera(r: &mut Rng) -> CameraConfig {
    CameraConfig {
        vertical_fov_degrees: *r.pick(&[1., 20., 50., 90., 150.]),
        aperture_size: if r.chance(0.7) { 0. } else { r.log(0.01, 5.) },
        look_from: rand_in(r, 10.).s(),
        look_at: rand_in(r, 5.).s(),
        up: rand_dir(r).s(),
    }
}

fn posts(r: &mut Rng) -> (Vec<PostProcessors>, String) {
    let n = *r.pick(&[0, 0, 1, 2, 3]);
    let mut list = vec![];
    let mut text = String::new();
    for _ in 0..n {
        if r.chance(0.3) {
            list.push(NopPostProcessor::new());
            text.push_str("nop ");
        } else {
            let f = *r.pick(&[0., 0.01, 0.2, 0.5]);
            let t = r.chance(0.5).then(|| *r.pick(&[0., 0.3, 1., 10.]));
            let m = r.chance(0.5).then(|| *r.pick(&[0., 0.3, 1., 10.]));
            list.push(BloomPostProcessor::new(f, t, m).expect("fraction is in range").into());
            text.push_str(&format!("bloom {f} {t:?} {m:?} "));
        }
    }
    (list, text)
}

fn a_shader(r: &mut Rng) -> (Shaders, &'static str) {
    match r.below(6) {
        0 => (AlbedoShader::new(), "albedo"),
        1 => (NormalShader::new(), "normal"),
        2 => (SimpleShader::new(), "simple"),
        _ => {
            let depth = *r.pick(&[0, 1, 2, 5, 50]);
            (PathTracingShader::new(depth), "path tracing")
        }
    }
}

fn strategy(r: &mut Rng) -> RenderImageStrategy {
    match r.below(3) {
        0 => RenderImageStrategy::EverySample,
        1 => RenderImageStrategy::OnlyFinal,
        _ => RenderImageStrategy::Interval(Duration::from_micros(r.log(1., 1e6) as u64)),
    }
}

/// Renders and checks that all is reported
fn complete(c: &mut Case, world: Hittables, camera: CameraConfig, background: V, size: (usize, usize), spp: u32, lights: bool) -> Res {
    let r = &mut c.rng;
    let (shader, name) = a_shader(r);
    let (post, chain) = posts(r);
    let strategy = strategy(r);
    let text = format!("{}x{}, {spp} samples, {name} shader, {chain:?}", size.0, size.1);
    let res = render(scene(
        world,
        camera,
        background,
        RenderConfig {
            width: size.0,
            height: size.1,
            samples_per_pixel: spp,
            shader,
            post_processors: post,
            render_image_strategy: strategy,
        },
    ))
    .map_err(|e| format!("{e} with {text}"))?;
    c.eval();
    if !lights {
        return match res.result {
            Err(e) if e.contains("light") && res.reports.is_empty() => Ok(()),
            other => Err(format!("a scene without lights gives {other:?} and {} reports with {text}", res.reports.len())),
        };
    }
    c.count("renders");
    res.result.map_err(|e| format!("render fails: {e} with {text}"))?;
    ensure!(res.reports.len() == spp as usize, "{} reports with {text}", res.reports.len());
    for p in &res.reports {
        if let Some(i) = &p.render_image {
            ensure!(i.dimensions() == (size.0 as u32, size.1 as u32), "image is {:?} with {text}", i.dimensions());
        }
    }
    if let Some(last) = res.reports.last() {
        ensure!(last.render_image.is_some(), "last report has no image with {text}");
    }
    Ok(())
}

pub fn random_world(r: &mut Rng, degenerate: f64, amplify: f64, lit: bool) -> (Hittables, usize, f64, Vec<&'static str>) {
    let mut g = Gen {
        r,
        degenerate,
        amplify,
        brightest: 0.,
        lights: 0,
        in_fog: false,
        objects: 0,
        kinds: vec![],
    };
    let n = match g.r.below(4) {
        0 => g.r.int(1, 2),
        1 => g.r.int(2, 8),
        2 => g.r.int(5, 20),
        _ => g.r.int(20, 60),
    };
    let mut list: Vec<Hittables> = vec![];
    for _ in 0..n {
        let mut o = g.object(3);
        list.append(&mut o);
    }
    if lit && g.lights == 0 {
        let m = g.emission();
        let at = rand_in(g.r, 8.);
        list.push(Sphere::new(at.s(), g.r.log(0.01, 3.), m));
        g.note("spheres", 1, true);
    }
    let (lights, brightest, kinds) = (g.lights, g.brightest, g.kinds);
    let world = if list.len() == 1 && r.chance(0.5) { list.remove(0) } else { Bvh::new(list) };
    (world, lights, brightest, kinds)
}

pub fn run(run: &Run) {
    run.cases("scenes", run.n(10000, 400000), |c| {
        let r = &mut c.rng;
        let degenerate = *r.pick(&[0., 0., 0.1, 0.5]);
        let amplify = if r.chance(0.2) { r.log(1., 10.) } else { 1. };
        let lit = r.chance(0.9);
        let (world, lights, brightest, kinds) = random_world(r, degenerate, amplify, lit);
        let background = match r.below(4) {
            0 => v(0., 0., 0.),
            1 => rand_color(r) * r.log(1., 1e3),
            _ => rand_color(r),
        };
        let depth = *r.pick(&[1u32, 2, 3, 10, 50]);
        let shader = PathTracingShader::new(depth);
        for k in &kinds {
            c.count(k);
        }
        let copy = world.clone();
        let renderer = tracer_with(copy, background, PathTracingShader::new(depth));
        let r = &mut c.rng;
        let size = (r.int(1, 8) as usize, r.int(1, 8) as usize);
        let spp = r.int(1, 3) as u32;
        let camera = a_camera(r);
        c.eval();
        if lights == 0 {
            c.count("scenes without light");
            match renderer {
                Ok(_) => return Err("a scene without lights is accepted".into()),
                Err(e) => ensure!(e.contains("light"), "a scene without lights is refused with {e:?}"),
            }
            return complete(c, world, camera, background, size, spp, false);
        }
        let renderer = renderer?;
        let b = world.bounding_box();
        let corner = |i: &solstrale::util::interval::Interval| (i.min.max(-20.), i.max.min(20.));
        let (x, y, z) = (corner(&b.x), corner(&b.y), corner(&b.z));
        let top = brightest.max(background.max_abs()).max(3.);
        let r = &mut c.rng;
        let n = 150;
        let mut hits = 0;
        for _ in 0..n {
            let p = v(r.range(x.0, x.1), r.range(y.0, y.1), r.range(z.0, z.1));
            let u = hostile_dir(r);
            let o = if r.chance(0.5) { p } else { p - u * r.log(0.1, 100.) };
            let ray = ray(o, u);
            let length = if r.chance(0.8) { 0. } else { r.log(1e-3, 1e3) };
            let Some(rec) = world.hit(&ray, &RAY_INTERVAL) else {
                continue;
            };
            hits += 1;
            let matte = matches!(rec.material, Materials::LambertianType(_) | Materials::IsotropicType(_));
            let col = V::of(shader.shade(&renderer, &rec, &ray, 0, length).get_attenuated_color());
            c.evals += 1;
            c.distinct.push(Rng::new(o.0.to_bits() ^ u.1.to_bits()).next());
            let tell = || format!("{col:?} along the ray {o:?} {u:?} of a scene of {kinds:?}, depth {depth}, background {background:?}, hits {:?}", rec.material);
            ensure!(col.finite(), "light sample is not finite: {}", tell());
            ensure!(col.0 >= 0. && col.1 >= 0. && col.2 >= 0., "light sample is negative: {}", tell());
            if matte {
                *c.counters.entry("samples on matte surfaces and fog".into()).or_default() += 1;
                ensure!(col.max_abs() <= 3. + 1e-12, "light sample on a matte surface is above the cap: {}", tell());
            }
            if amplify == 1. {
                ensure!(col.max_abs() <= top * (1. + 1e-12), "light sample is brighter than everything ({top}): {}", tell());
            }
            if col.max_abs() > 0. {
                *c.counters.entry("lit samples".into()).or_default() += 1;
            }
        }
        c.add("rays that hit", hits);
        c.sample(|| format!("{} objects {kinds:?}, depth {depth}, {hits} of {n} rays hit", kinds.len()));
        drop(renderer);
        complete(c, world, camera, background, size, spp, true)
    });

    // More samples, objects and pixels
    run.cases_on("larger renders", run.n(60, 2000), 2, |c| {
        let r = &mut c.rng;
        let (world, _, _, _) = random_world(r, 0.05, 1., true);
        let (w, h) = (r.int(20, 90) as usize, r.int(20, 90) as usize);
        let camera = a_camera(r);
        let background = rand_color(r);
        let spp = r.int(1, 12) as u32;
        c.distinct(c.seed);
        complete(c, world, camera, background, (w, h), spp, true)
    });

    // Light that can not get out: only the depth ends its paths
    run.cases("traps", run.n(400, 10000), |c| {
        let r = &mut c.rng;
        let gap = match r.below(3) {
            0 => r.log(0.0011, 0.1),
            1 => r.log(0.1, 10.),
            _ => r.log(10., 1e5),
        };
        let wide = gap * r.log(1e2, 1e7);
        let at = rand_in(r, 3.);
        let toward = if r.chance(0.5) { axis_dir(r) } else { rand_dir(r) };
        let (t, b, n) = frame(toward);
        let white = || SolidColor::new(1., 1., 1.);
        let mut material = |r: &mut Rng| match r.below(7) {
            0..=2 => Metal::new(white(), None, 0.),
            3 => Metal::new(white(), None, 0.3),
            4 => Dielectric::new(white(), None, *r.pick(&[0.3, 1., 1.5])),
            5 => Blend::new(Metal::new(white(), None, 0.), Dielectric::new(white(), None, 1.5), 0.5),
            _ => matte(v(1., 1., 1.)),
        };
        let (kind, mut list) = match r.below(5) {
            0 | 1 => {
                let side = |h: f64, m: Materials| build(&Shape::Quad(at + n * h - (t + b) * (wide / 2.), t * wide, b * wide), m);
                ("mirrors that face each other", vec![side(-gap / 2., material(r)), side(gap / 2., material(r))])
            }
            2 => ("a ball from inside", vec![build(&Shape::Sphere(at, gap), material(r))]),
            3 => {
                let e = v(1., 1., 1.) * (gap / 2.);
                ("a box from inside", Quad::new_box((at - e).s(), (at + e).s(), material(r), &NopTransformer()))
            }
            _ => {
                let density = *r.pick(&[1., 1e3, 1e6, 1e12]) / gap;
                ("fog", vec![ConstantMedium::new(build(&Shape::Sphere(at, gap), matte(v(1., 1., 1.))), density, Vec3::new(1., 1., 1.))])
            }
        };
        list.push(build(&Shape::Sphere(at + t * (wide * 10. + 1e7), 0.1), light(v(1., 1., 1.))));
        let depth = *r.pick(&[1, 5, 50, 50, 300]);
        let world = bvh(list);
        let (w, h) = (r.int(1, 4) as usize, r.int(1, 4) as usize);
        let cam = CameraConfig {
            vertical_fov_degrees: *r.pick(&[1., 10., 60.]),
            aperture_size: 0.,
            look_from: at.s(),
            look_at: (at + n * gap + if r.chance(0.5) { rand_in(r, 0.3 * gap) } else { v(0., 0., 0.) }).s(),
            up: t.s(),
        };
        let spp = r.int(1, 3) as u32;
        let text = format!("{kind}, {gap} apart, depth {depth}");
        c.sample(|| text.clone());
        c.count(kind);
        c.distinct(c.seed);
        c.eval();
        let res = render(scene(world, cam, rand_color(&mut c.rng), config(w, h, spp, PathTracingShader::new(depth)))).map_err(|e| format!("{e} in {text}"))?;
        res.result.map_err(|e| format!("render fails: {e} in {text}"))?;
        ensure!(res.reports.len() == spp as usize, "{} of {spp} reports in {text}", res.reports.len());
        Ok(())
    });

    // Finite, but not sensible
    workers(Some(2));
    run.cases("extreme inputs", run.n(10000, 300000), |c| {
        let r = &mut c.rng;
        let huge = r.chance(0.5);
        let mut val = |r: &mut Rng| -> f64 {
            match r.below(8) {
                0 => 0.,
                1 => r.sign() * r.log(1e-300, 1e-10),
                2 if huge => r.sign() * r.log(1e10, 1e300),
                3 => r.sign() * r.log(1e2, 1e6),
                _ => r.range(-5., 5.),
            }
        };
        let mut vec = |r: &mut Rng| v(val(r), val(r), val(r));
        let mut list = vec![];
        for _ in 0..r.int(0, 6) {
            let m = match r.below(6) {
                0 => light(vec(r)),
                1 => Metal::new(SolidColor::new(0.5, 0.5, 0.5), Some(SolidColor::new_from_vec3(vec(r).s())), vec(r).0),
                2 => Dielectric::new(SolidColor::new_from_vec3(vec(r).s()), None, vec(r).0),
                3 => Blend::new(matte(vec(r)), light(vec(r)), vec(r).0),
                4 => DiffuseLight::new(1., 1., 1., Some(vec(r).0)),
                _ => matte(vec(r)),
            };
            let nop = NopTransformer();
            let o = match r.below(6) {
                0 => vec![Sphere::new(vec(r).s(), vec(r).0, m)],
                1 => vec![Quad::new(vec(r).s(), vec(r).s(), vec(r).s(), m, &nop)],
                2 => Quad::new_box(vec(r).s(), vec(r).s(), m, &nop),
                3 => vec![ConstantMedium::new(Sphere::new(vec(r).s(), vec(r).0, m), vec(r).0, vec(r).s())],
                _ => {
                    let t = Uv::new(vec(r).0 as f32, vec(r).0 as f32);
                    vec![Triangle::new_with_tex_coords(vec(r).s(), vec(r).s(), vec(r).s(), t, Uv::new(0., 1.), Uv::new(1., 1.), m, chain(r).boxed().as_ref())]
                }
            };
            list.extend(o);
        }
        if r.chance(0.9) {
            list.push(far_light());
        }
        let camera = match r.below(4) {
            0 => CameraConfig::default(),
            1 => CameraConfig { up: Vec3::new(0., 0., 0.), ..camera(vec(r), vec(r), 50.) },
            2 => CameraConfig { look_from: vec(r).s(), look_at: vec(r).s(), up: vec(r).s(), aperture_size: vec(r).0, vertical_fov_degrees: vec(r).0 },
            _ => {
                // Looks along the up direction
                camera(v(0., 5., 0.), v(0., 0., 0.), 50.)
            }
        };
        let background = vec(r);
        let size = match r.below(4) {
            0 => (0, r.below(3) as usize),
            1 => (r.below(3) as usize, 0),
            _ => (r.int(1, 6) as usize, r.int(1, 6) as usize),
        };
        let spp = r.below(3) as u32;
        let (shader, name) = a_shader(r);
        let (post, chain) = posts(r);
        let strategy = strategy(r);
        let n = list.len();
        let res = no_panic(|| {
            render(scene(
                Bvh::new(list),
                camera,
                background,
                RenderConfig {
                    width: size.0,
                    height: size.1,
                    samples_per_pixel: spp,
                    shader,
                    post_processors: post,
                    render_image_strategy: strategy,
                },
            ))
        });
        c.eval();
        c.distinct(c.seed);
        let tell = format!("{size:?}, {spp} samples, {n} objects, {name} shader, {chain}");
        let res = res.and_then(|x| x).map_err(|e| format!("{e} with {tell}"))?;
        if res.result.is_ok() {
            c.count("extreme renders completed");
            ensure!(res.reports.len() == spp as usize, "{} reports with {tell}", res.reports.len());
            ensure!(
                res.reports.iter().flat_map(|p| &p.render_image).all(|i| i.dimensions() == (size.0 as u32, size.1 as u32)),
                "wrong image size with {tell}"
            );
        }
        Ok(())
    });
    workers(None);
}
