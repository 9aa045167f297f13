//! Blended materials and lights
use crate::core::*;
use crate::geom::*;
use crate::p06::probe;
use crate::scene::*;
use crate::stats::*;
use solstrale::hittable::{Hittable, Sphere};
use solstrale::material::texture::SolidColor;
use solstrale::material::*;

pub const RULE: &str = "Blends of matte, metal, glass and light materials, and blends of blends, are scattered from and hit many times with factors of all sizes: which of the materials answered is told from colour, kind of scattering and (for blends of normal-mapped materials) from the normal, and compared with the configured frequency, exactly so for factors 0 and 1. Lights on every shape are looked at from both sides. Non-trivial: every scattering; counted by blend and hit.";

#[derive(Clone, Debug)]
enum Tree {
    Leaf(usize, u32),
    Node(Box<Tree>, Box<Tree>, f64),
}

fn tree(r: &mut Rng, depth: u32, next: &mut usize) -> Tree {
    if depth == 0 || r.chance(0.2) && *next > 0 {
        *next += 1;
        return Tree::Leaf(*next, r.below(4) as u32);
    }
    let f = match r.below(8) {
        0 => 0.,
        1 => 1.,
        2 => 0.5,
        3 => r.log(1e-4, 0.1),
        4 => 1. - r.log(1e-4, 0.1),
        _ => r.f(),
    };
    let a = tree(r, depth - 1, next);
    let b = tree(r, depth - 1, next);
    Tree::Node(Box::new(a), Box::new(b), f)
}

fn material(t: &Tree, map: bool) -> Materials {
    match t {
        Tree::Leaf(i, kind) => {
            let col = SolidColor::new_from_vec3(id_color(*i).s());
            // A normal that tells which leaf it comes from
            let n = map.then(|| SolidColor::new_from_vec3(leaf_map(*i).s()));
            match kind {
                0 => Lambertian::new(col, n),
                1 => Metal::new(col, n, 0.),
                2 => Dielectric::new(col, n, 1.5),
                _ if map => Lambertian::new(col, n),
                _ => {
                    let k = id_color(*i);
                    DiffuseLight::new(k.0, k.1, k.2, Some(*i as f64))
                }
            }
        }
        Tree::Node(a, b, f) => Blend::new(material(a, map), material(b, map), *f),
    }
}

fn leaf_map(i: usize) -> V {
    let n = leaf_normal(i);
    (n + v(1., 1., 1.)) * 0.5
}

fn leaf_normal(i: usize) -> V {
    let a = i as f64 * 0.37;
    v(0.3 * a.cos(), 0.3 * a.sin(), 0.9).unit()
}

fn shares(t: &Tree, p: f64, out: &mut Vec<(usize, u32, f64)>) {
    match t {
        Tree::Leaf(i, k) => out.push((*i, *k, p)),
        Tree::Node(a, b, f) => {
            shares(a, p * (1. - f), out);
            shares(b, p * f, out);
        }
    }
}

pub fn run(run: &Run) {
    run.cases("blends", run.n(500, 8000), |c| {
        let mut count = 0;
        let depth = c.rng.int(1, 4) as u32;
        let t = tree(&mut c.rng, depth, &mut count);
        let mut leaves = vec![];
        shares(&t, 1., &mut leaves);
        c.sample(|| format!("{t:?}"));
        c.distinct(hash_of(format!("{t:?}")));
        let object = Sphere::new(v(0., 0., 0.).s(), 1., material(&t, false));
        let r = ray(v(0.3, -0.2, 4.), v(0., 0., -1.));
        let rec = object.hit(&r, &ahead()).ok_or("missed")?;
        let lights = [far_light()];
        let mut p: Vec<f64> = leaves.iter().map(|l| l.2).collect();
        p.push(0.);
        let mut bad = None;
        let n = 4000;
        let mut draw = || {
            let (color, kind, att) = match rec.material.scatter(&r, &rec, &lights) {
                RayScatter::ScatterPdf(s) => (s.color, 0, None),
                RayScatter::ScatterBasic(s) => (s.color, 1, None),
                RayScatter::ScatterEmission(s) => (s.color, 3, s.attenuation_factor),
            };
            let color = V::of(color);
            let id = color_id(color);
            let Some(at) = leaves.iter().position(|l| l.0 == id) else {
                bad = Some(format!("colour {color:?} is none of those blended"));
                return leaves.len();
            };
            let l = &leaves[at];
            if !(kind == l.1 || kind == 1 && l.1 == 2) {
                bad = Some(format!("colour of material {l:?} comes with the wrong kind of scattering"));
            }
            if l.1 == 3 && !att.is_some_and(|a| (a * id as f64 - 1.).abs() < 1e-9) {
                bad = Some(format!("light {l:?} has attenuation {att:?}"));
            }
            if l.2 == 0. {
                bad = Some(format!("material {l:?} is chosen though its share is zero"));
            }
            at
        };
        let res = expect_bins(c, "shares of the materials", n, &p, &mut draw);
        if let Some(b) = bad {
            return Err(format!("{b} in {t:?}"));
        }
        res.map_err(|e| format!("{e} in {t:?}"))?;
        // The same, one by one, as bins with few hits are put together
        for (i, l) in leaves.iter().enumerate() {
            let mut draw = || color_id(scatter_color(&rec, &r, &lights)) == l.0;
            expect_frequency(c, &format!("share of material {i}"), n, l.2, 1e-12, &mut draw).map_err(|e| format!("{e} in {t:?}"))?;
        }
        c.add("scatterings", n as u64);
        Ok(())
    });

    run.cases("blended normals", run.n(300, 4000), |c| {
        let mut count = 0;
        let depth = c.rng.int(1, 3) as u32;
        let t = tree(&mut c.rng, depth, &mut count);
        let mut leaves = vec![];
        shares(&t, 1., &mut leaves);
        c.distinct(hash_of(format!("{t:?}n")));
        let object = build(&Shape::Quad(v(-1., -1., 0.), v(2., 0., 0.), v(0., 2., 0.)), material(&t, true));
        let r = ray(v(0.3, -0.2, 4.), v(0., 0., -1.));
        for (i, l) in leaves.iter().enumerate() {
            let want = leaf_normal(l.0);
            let mut other = None;
            let mut draw = || {
                let n = V::of(object.hit(&r, &ahead()).unwrap().normal);
                if !leaves.iter().any(|l| close(leaf_normal(l.0), n, 1e-9)) {
                    other = Some(n);
                }
                close(n, want, 1e-9)
            };
            let res = expect_frequency(c, &format!("normals of material {i}"), 3000, l.2, 1e-12, &mut draw);
            if let Some(n) = other {
                return Err(format!("normal {n:?} is none of those blended in {t:?}"));
            }
            res.map_err(|e| format!("{e} in {t:?}"))?;
            c.add("normals", 3000);
        }
        Ok(())
    });

    run.cases("lights", run.n(60000, 1000000), |c| {
        let r = &mut c.rng;
        let size = r.log(0.1, 10.);
        let center = rand_in(r, 10.);
        let shape = rand_shape(r, center, size);
        let col = rand_color(r) * *r.pick(&[0., 1., 30.]);
        let half = r.chance(0.6).then(|| r.log(1e-3, 1e4));
        let mat = match half {
            Some(h) => DiffuseLight::new(col.0, col.1, col.2, Some(h)),
            None if r.chance(0.5) => DiffuseLight::new_from_vec3(col.s()),
            None => light(col),
        };
        ensure!(mat.is_light(), "a light is not a light");
        let other = match r.below(3) {
            0 => matte(col),
            1 => solid_metal(col),
            _ => Dielectric::new(SolidColor::new(1., 1., 1.), None, 1.5),
        };
        ensure!(!other.is_light(), "{other:?} is a light");
        let object = build(&shape, mat.clone());
        let lights = [far_light()];
        for _ in 0..4 {
            let p = probe(&mut c.rng, &shape);
            let Some(ms) = meets(&shape, p.o, p.d, 1e-4) else { continue };
            let Some(m) = ms.iter().find(|m| m.t > 0.001) else { continue };
            if ms.iter().any(|m| (m.t - 0.001).abs() < 1e-4) || m.n.dot(p.d.unit()).abs() < 1e-3 {
                continue;
            }
            c.eval();
            c.distinct_f(&[p.o.0, p.d.1, size]);
            let ray = ray(p.o, p.d);
            let rec = object.hit(&ray, &ahead()).ok_or_else(|| format!("{shape:?} is missed by {p:?}", p = (p.o, p.d)))?;
            let front = m.n.dot(p.d) < 0.;
            match rec.material.scatter(&ray, &rec, &lights) {
                RayScatter::ScatterEmission(s) => {
                    let want = if front { col } else { v(0., 0., 0.) };
                    c.count(if front { "seen from the front" } else { "seen from behind" });
                    ensure!(V::of(s.color) == want, "{shape:?} of light {col:?} emits {:?} towards {:?} (front {front})", s.color, -p.d);
                    if front {
                        let ok = match (half, s.attenuation_factor) {
                            (None, None) => true,
                            (Some(h), Some(a)) => (a * h - 1.).abs() < 1e-9,
                            _ => false,
                        };
                        ensure!(ok, "light with half-length {half:?} has attenuation factor {:?}", s.attenuation_factor);
                    }
                }
                _ => return Err(format!("light {shape:?} scatters a ray (front {front})")),
            }
        }
        Ok(())
    });
}
