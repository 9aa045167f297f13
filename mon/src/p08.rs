//! Which objects are lights
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;
use solstrale::renderer::shader::PathTracingShader;
use solstrale::renderer::Renderer;
use std::collections::BTreeMap;
use std::sync::mpsc::channel;

pub const RULE: &str = "Random trees of hierarchies, fog volumes and shapes of all materials, with no, few or many lights at any depth and also copies of lights; each light has its own colour, by which the lights that the world and the renderer report are identified and counted. Scenes without light must be refused with the documented message and without any report, others must be accepted and rendered. Non-trivial: every tree; counted by its structure.";

struct Gen {
    next: usize,
    expected: BTreeMap<usize, (Shape, u64)>,
    text: String,
    light_share: f64,
    objects: u64,
}

impl Gen {
    fn dull(&mut self, r: &mut Rng) -> Materials {
        let c = rand_color(r);
        match r.below(4) {
            0 => matte(c),
            1 => solid_metal(c),
            2 => Dielectric::new(SolidColor::new(1., 1., 1.), None, 1.5),
            _ => Blend::new(matte(c), solid_metal(c), 0.5),
        }
    }

    fn shape(&mut self, r: &mut Rng) -> Shape {
        // Often several at the same place
        let at = if r.chance(0.2) { v(1., 2., 3.) } else { rand_in(r, 20.) };
        let size = r.log(0.1, 3.);
        rand_shape(r, at, size)
    }

    fn light(&mut self, r: &mut Rng, counted: bool) -> Hittables {
        let s = self.shape(r);
        self.next += 1;
        let c = id_color(self.next);
        let h = r.chance(0.3).then(|| r.log(0.1, 10.));
        if counted {
            self.expected.insert(self.next, (s.clone(), 1));
            self.text += "L";
        }
        build(&s, DiffuseLight::new(c.0, c.1, c.2, h))
    }

    fn make(&mut self, r: &mut Rng, depth: u32, counted: bool) -> Hittables {
        self.objects += 1;
        match r.below(10) {
            0 | 1 | 2 if depth > 0 => {
                self.text += "(";
                let n = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    _ => r.int(3, 9),
                };
                let mut list: Vec<Hittables> = (0..n).map(|_| self.make(r, depth - 1, counted)).collect();
                if !list.is_empty() && r.chance(0.15) {
                    // The same once more
                    let i = r.below(list.len() as u64) as usize;
                    let copy = list[i].clone();
                    for l in ids(&list[i].get_lights()).into_iter().flatten() {
                        if let Some(e) = self.expected.get_mut(&l) {
                            e.1 += 1;
                        }
                    }
                    self.text += "=";
                    list.push(copy);
                }
                self.text += ")";
                Bvh::new(list)
            }
            3 => {
                self.text += "f[";
                let b = match r.below(3) {
                    0 => self.make(r, depth.saturating_sub(1), false),
                    1 => self.light(r, false),
                    _ => {
                        let s = self.shape(r);
                        let m = self.dull(r);
                        build(&s, m)
                    }
                };
                self.text += "]";
                ConstantMedium::new(b, 1., v(1., 1., 1.).s())
            }
            _ if r.chance(self.light_share) => self.light(r, counted),
            _ => {
                self.text += "o";
                let s = self.shape(r);
                let m = self.dull(r);
                build(&s, m)
            }
        }
    }
}

/// The colours of lights tell which they are
fn ids(lights: &[Hittables]) -> Vec<Option<usize>> {
    lights.iter().map(identify).collect()
}

fn identify(h: &Hittables) -> Option<usize> {
    let b = h.bounding_box();
    let lo = v(b.x.min, b.y.min, b.z.min);
    let hi = v(b.x.max, b.y.max, b.z.max);
    let mid = (lo + hi) * 0.5;
    let far = (hi - lo).len() * 3.;
    // Rays from all around through what may be the middle
    let mut r = Rng::new(77);
    for _ in 0..2000 {
        let d = rand_dir(&mut r);
        let to = if r.chance(0.5) { mid } else { lo + (hi - lo).times(v(r.f(), r.f(), r.f())) };
        let ray = ray(to - d * far, d);
        if let Some(rec) = h.hit(&ray, &ahead()) {
            if !rec.front_face {
                continue;
            }
            if let RayScatter::ScatterEmission(s) = rec.material.scatter(&ray, &rec, &[]) {
                return Some(color_id(V::of(s.color)));
            }
            return None;
        }
    }
    None
}

fn check(c: &mut Case, what: &str, lights: &[Hittables], g: &Gen) -> Res {
    let mut found: BTreeMap<usize, u64> = BTreeMap::new();
    for h in lights {
        c.eval();
        c.count("lights identified");
        let Some(id) = identify(h) else {
            return Err(format!("{what} of {} contain something that emits no light: {h:?}", g.text));
        };
        let Some((shape, _)) = g.expected.get(&id) else {
            return Err(format!("{what} of {} contain a light that is none in the scene: {h:?}", g.text));
        };
        *found.entry(id).or_default() += 1;
        // It is the object itself: same place and size
        let b = h.bounding_box();
        let (lo, hi) = shape.bounds();
        let off = (v(b.x.min, b.y.min, b.z.min) - lo).max_abs().max((v(b.x.max, b.y.max, b.z.max) - hi).max_abs());
        ensure!(off < 1e-3, "{what} of {}: light {shape:?} is reported as {h:?}", g.text);
    }
    for (id, (shape, n)) in &g.expected {
        let k = found.get(id).copied().unwrap_or(0);
        ensure!(k == *n, "{what} of {}: light {shape:?} is found {k} times instead of {n}", g.text);
    }
    Ok(())
}

const REFUSAL: &str = "Scene should have at least one light";

pub fn run(run: &Run) {
    run.cases("worlds", run.n(20000, 300000), |c| {
        let r = &mut c.rng;
        let mut g = Gen {
            next: 0,
            expected: BTreeMap::new(),
            text: String::new(),
            light_share: *r.pick(&[0., 0.05, 0.3, 0.3, 0.7]),
            objects: 0,
        };
        let depth = r.int(0, 5) as u32;
        let world = if depth > 0 && r.chance(0.8) {
            g.text += "(";
            let n = r.int(0, 12);
            let list = (0..n).map(|_| g.make(r, depth, true)).collect();
            g.text += ")";
            Bvh::new(list)
        } else {
            g.make(r, depth, true)
        };
        let text = g.text.clone();
        c.sample(|| text.clone());
        c.distinct(hash_of(format!("{text}{:?}", g.expected.values())));
        c.add("objects", g.objects);
        c.eval();
        check(c, "lights", &world.get_lights(), &g)?;
        let copy = world.clone();
        check(c, "lights of a copy", &copy.get_lights(), &g)?;
        let cfg = config(1, 1, 1, PathTracingShader::new(2));
        let cam = || camera(v(0., 0., 100.), v(0., 0., 0.), 40.);
        let made = Renderer::new(scene(world, cam(), v(0., 0., 0.), cfg));
        c.eval();
        match (&made, g.expected.is_empty()) {
            (Ok(renderer), false) => {
                c.count("scenes with light");
                check(c, "lights of the renderer", &renderer.lights, &g)?;
            }
            (Ok(_), true) => return Err(format!("scene {text} without light is accepted")),
            (Err(e), true) => {
                c.count("scenes without light");
                ensure!(e.to_string() == REFUSAL, "scene {text} without light is refused with: {e}");
            }
            (Err(e), false) => return Err(format!("scene {text} with light is refused: {e}")),
        }
        // Through the entry point (not always, as it starts threads)
        if c.index % 10 == 0 {
            let (tx, rx) = channel();
            let (_keep, abort) = channel();
            let res = solstrale::ray_trace(
                scene(copy, cam(), v(0., 0., 0.), config(2, 2, 2, PathTracingShader::new(3))),
                &tx,
                &abort,
            );
            drop(tx);
            let reports = rx.iter().count();
            c.eval();
            match (res, g.expected.is_empty()) {
                (Ok(()), false) => ensure!(reports == 2, "scene {text} sends {reports} reports"),
                (Err(e), true) => {
                    ensure!(e.to_string() == REFUSAL, "scene {text} without light is refused with: {e}");
                    ensure!(reports == 0, "refused scene {text} sends {reports} reports");
                }
                (Ok(()), true) => return Err(format!("scene {text} without light is rendered")),
                (Err(e), false) => return Err(format!("scene {text} with light is refused: {e}")),
            }
            c.count("scenes rendered");
        }
        Ok(())
    });
}
