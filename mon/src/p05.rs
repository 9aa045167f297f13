//! Bounding volume hierarchy against exhaustive search
use crate::core::*;
use crate::geom::*;
use crate::p06::interval;
use crate::scene::*;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Bvh, ConstantMedium, Hittable, Hittables, Quad};
use solstrale::material::RayHit;
use solstrale::util::interval::Interval;

pub const RULE: &str = "Lists of objects (none to thousands; duplicates, coincident centres, grids, lines, nested hierarchies, dense fog) are made into hierarchies, and rays with intervals around their hits are asked for in the hierarchy, in its copy, in one of the shuffled list, and exhaustively of each object. Non-trivial: rays that some object of the list is hit by; counted by ray, interval and list.";

struct Item {
    h: Hittables,
    shape: Option<Shape>,
    fog: bool,
}

fn list(c: &mut Case, n: usize, kind: u64) -> Vec<Item> {
    let mut items: Vec<Item> = vec![];
    let spread = c.rng.log(0.5, 100.);
    let shared = rand_in(&mut c.rng, spread);
    let step = axis_dir(&mut c.rng);
    let boxes: Vec<(V, V)> = (0..c.rng.int(1, 4))
        .map(|_| (rand_in(&mut c.rng, spread), v(c.rng.log(0.1, 1.), c.rng.log(0.1, 1.), c.rng.log(0.1, 1.)) * spread * 0.4))
        .collect();
    let mut make = |r: &mut Rng, i: usize, items: &mut Vec<Item>, depth: u32| {
        let center = match kind {
            0 | 5 | 6 => rand_in(r, spread),
            // All centres coincide
            1 => shared,
            // Grid: many equal centres along each axis
            2 => v(r.int(-2, 2) as f64, r.int(-2, 2) as f64, r.int(-2, 2) as f64) * spread * 0.3,
            // Along a line
            3 => shared + step * (i as f64) * 0.37,
            // In a plane, some far out
            _ => {
                let p = rand_in(r, spread);
                let p = v(p.0, p.1, 1.);
                if r.chance(0.05) { p * 50. } else { p }
            }
        };
        let size = if kind == 1 { r.log(0.1, 10.) } else { spread * r.log(0.01, 0.5) };
        let _ = depth;
        let shape = if kind == 6 {
            // Different objects with equal bounding boxes: diagonals of few boxes
            let (p, e) = *r.pick(&boxes);
            let k = r.below(3) as usize;
            let unit = |i: usize| {
                let x = |j: usize| if i % 3 == j { e.get(j) } else { 0. };
                v(x(0), x(1), x(2))
            };
            let (a, b, t) = (unit(k), unit(k + 1), unit(k + 2));
            match r.below(7) {
                0 => Shape::Quad(p, a + b, t),
                1 => Shape::Quad(p + a, b - a, t),
                2 => Shape::Tri(p, p + a + b, p + a + b + t),
                3 => Shape::Tri(p + a, p + b, p + b + t),
                4 => Shape::Tri(p, p + a + b, p + b + t),
                5 => Shape::Tri(p + a, p + b, p + t + a * r.f()),
                _ => Shape::Sphere(p + e * 0.5, e.get(k) * 0.5),
            }
        } else if r.chance(0.1) {
            // Axis-parallel: flat bounding box
            let a = axis_dir(r);
            let (t, b, _) = frame(a);
            Shape::Quad(center, t * size, b * size)
        } else {
            rand_shape(r, center, size)
        };
        let shape = if kind == 1 {
            match shape {
                Shape::Sphere(..) => Shape::Sphere(shared, size),
                Shape::Quad(_, a, b) => Shape::Quad(shared - a * 0.5 - b * 0.5, a, b),
                s => s,
            }
        } else {
            shape
        };
        items.push(Item { h: build(&shape, id_mat(i)), shape: Some(shape), fog: false });
    };
    for i in 0..n {
        match c.rng.below(20) {
            0 if !items.is_empty() => {
                // A duplicate
                let k = c.rng.below(items.len() as u64) as usize;
                let (h, shape, fog) = (items[k].h.clone(), items[k].shape.clone(), items[k].fog);
                items.push(Item { h, shape, fog });
                c.count("duplicates");
            }
            1 if kind == 5 => {
                let center = rand_in(&mut c.rng, spread);
                let e = v(1., 1., 1.) * spread * c.rng.range(0.05, 0.3);
                let h = bvh(Quad::new_box((center - e).s(), (center + e).s(), id_mat(i), &NopTransformer()));
                items.push(Item { h, shape: None, fog: false });
                c.count("nested boxes");
            }
            2 if kind == 5 => {
                // So dense that it is hit where it is entered
                let center = rand_in(&mut c.rng, spread);
                let boundary = if c.rng.chance(0.5) {
                    build(&Shape::Sphere(center, spread * 0.2), id_mat(i))
                } else {
                    let e = v(1., 1., 1.) * spread * 0.15;
                    bvh(Quad::new_box((center - e).s(), (center + e).s(), id_mat(i), &NopTransformer()))
                };
                items.push(Item { h: ConstantMedium::new(boundary, 1e13, id_color(i).s()), shape: None, fog: true });
                c.count("fog");
            }
            3 if kind == 5 => {
                let k = c.rng.below(5) as usize;
                let mut inner = vec![];
                for j in 0..k {
                    make(&mut c.rng, i * 10 + j, &mut inner, 1);
                }
                let mut h = bvh(inner.into_iter().map(|i| i.h).collect());
                if c.rng.chance(0.3) {
                    h = bvh(vec![h]);
                }
                items.push(Item { h, shape: None, fog: false });
                c.count("nested hierarchies");
            }
            _ => make(&mut c.rng, i, &mut items, 0),
        }
    }
    items
}

fn describe(h: &Option<RayHit>) -> String {
    match h {
        None => "no hit".into(),
        Some(h) => format!("hit at {} on {:?}", h.ray_length, h.hit_point),
    }
}

fn query(c: &mut Case, items: &[Item], trees: &[(&str, &Hittables)], lights: &[Hittables], o: V, d: V, iv: Interval) -> Res {
    let r = ray(o, d);
    c.eval();
    let all: Vec<(usize, RayHit)> = items
        .iter()
        .enumerate()
        .filter_map(|(i, it)| it.h.hit(&r, &iv).map(|h| (i, h)))
        .collect();
    let best = all.iter().map(|(_, h)| h.ray_length).fold(f64::INFINITY, f64::min);
    let slack = 1e-12 * best.abs();
    if !all.is_empty() {
        c.distinct_f(&[o.0, o.1, o.2, d.0, d.1, d.2, iv.min, iv.max, items.len() as f64]);
        c.count(if all.len() > 1 { "rays with several hits" } else { "rays with one hit" });
        if best < 0. {
            c.count("nearest hit is behind the origin");
        }
    } else {
        c.count("rays without hit");
    }
    // What is decided by rounding
    let vague = |i: usize| {
        items[i].shape.as_ref().is_some_and(|s| meets(s, o, d, 1e-6).is_none())
    };
    let first: Vec<&(usize, RayHit)> = all.iter().filter(|(_, h)| h.ray_length <= best + slack).collect();
    let foggy = first.iter().any(|(i, _)| items[*i].fog) || all.iter().any(|(i, _)| items[*i].fog);
    for (name, tree) in trees {
        let got = tree.hit(&r, &iv);
        let ctx = || format!("{name} of {} objects, ray from {o:?} to {d:?}, interval {iv:?}: {}, nearest of the list is {}", items.len(), describe(&got), describe(&first.first().map(|f| f.1.clone())));
        match (&got, first.is_empty()) {
            (None, true) => {}
            (None, false) => {
                if first.iter().all(|(i, _)| vague(*i)) || foggy && near_edge(items, &first, o, d) {
                    c.count("grazing contacts skipped");
                    continue;
                }
                return Err(ctx());
            }
            (Some(_), true) => return Err(ctx()),
            (Some(g), false) => {
                let tol = if foggy { 1e-9 * (best.abs() + 1. / d.len()) } else { slack };
                if (g.ray_length - best).abs() > tol {
                    if first.iter().all(|(i, _)| vague(*i)) {
                        c.count("grazing contacts skipped");
                        continue;
                    }
                    return Err(ctx());
                }
                // The data are those of an object at that distance
                let color = scatter_color(g, &r, lights);
                let same = all.iter().filter(|(_, h)| (h.ray_length - best).abs() <= tol).any(|(i, h)| {
                    items[*i].fog && scatter_color(h, &r, lights) == color && close(V::of(g.hit_point), V::of(h.hit_point), tol * d.len() * 2. + 1e-9)
                        || !items[*i].fog
                            && h.ray_length == g.ray_length
                            && h.hit_point == g.hit_point
                            && h.normal == g.normal
                            && h.uv == g.uv
                            && h.front_face == g.front_face
                            && scatter_color(h, &r, lights) == color
                });
                if !same {
                    return Err(format!("hit data do not match: {} (data {g:?})", ctx()));
                }
            }
        }
    }
    Ok(())
}

/// Is the ray almost passing the objects by?
fn near_edge(items: &[Item], first: &[&(usize, RayHit)], o: V, d: V) -> bool {
    first.iter().any(|(i, _)| {
        let b = items[*i].h.bounding_box();
        let m = 1e-6 * (b.diagonal_length());
        let (mut t0, mut t1) = (f64::NEG_INFINITY, f64::INFINITY);
        for (k, iv) in [b.x, b.y, b.z].iter().enumerate() {
            let (lo, hi) = (iv.min + m, iv.max - m);
            if d.get(k) == 0. {
                if o.get(k) < lo || o.get(k) > hi {
                    return true;
                }
                continue;
            }
            let (x, y) = ((lo - o.get(k)) / d.get(k), (hi - o.get(k)) / d.get(k));
            t0 = t0.max(x.min(y));
            t1 = t1.min(x.max(y));
        }
        t0 >= t1
    })
}

fn scene_case(c: &mut Case, n: usize, kind: u64, rays: usize) -> Res {
    let items = list(c, n, kind);
    let tree = Bvh::new(items.iter().map(|i| i.h.clone()).collect());
    let copy = tree.clone();
    let mut order: Vec<usize> = (0..items.len()).collect();
    c.rng.shuffle(&mut order);
    let shuffled = Bvh::new(order.iter().map(|&i| items[i].h.clone()).collect());
    let wrapped = Bvh::new(vec![tree.clone()]);
    c.count(&format!("lists of kind {kind}"));
    c.sample(|| format!("{n} objects of kind {kind}: {:?}", items.iter().take(3).map(|i| i.shape.clone()).collect::<Vec<_>>()));
    let lights = vec![far_light()];
    let trees = [("hierarchy", &tree), ("copy", &copy), ("hierarchy of the shuffled list", &shuffled), ("nested hierarchy", &wrapped)];
    for _ in 0..rays {
        let (o, d, iv);
        if items.is_empty() {
            o = rand_in(&mut c.rng, 2.);
            d = hostile_dir(&mut c.rng);
            iv = interval(&mut c.rng, &[]);
        } else {
            let it = c.rng.pick(&items);
            let (target, size) = match &it.shape {
                Some(s) => (s.point(&mut c.rng), s.size()),
                None => (V::of(it.h.bounding_box().center()), it.h.bounding_box().diagonal_length()),
            };
            let target = if c.rng.chance(0.2) && target.finite() && size.is_finite() { target + rand_dir(&mut c.rng) * size } else { target };
            let target = if target.finite() { target } else { v(0., 0., 0.) };
            let dir = hostile_dir(&mut c.rng);
            o = match c.rng.below(3) {
                // Another object's place
                0 => {
                    let p = match &c.rng.clone().pick(&items).shape {
                        Some(s) => s.center() + rand_dir(&mut c.rng) * 0.1,
                        None => rand_in(&mut c.rng, 1.),
                    };
                    p
                }
                1 => target - dir * c.rng.log(0.01, 10.),
                _ => target - dir * c.rng.log(10., 300.),
            };
            let aim = if c.rng.chance(0.5) && (target - o).len() > 1e-9 { (target - o).unit() } else { dir };
            d = aim * if c.rng.chance(0.5) { 1. } else { c.rng.log(1e-2, 1e2) };
            // Fog is not made for hits elsewhere than ahead
            let r = ray(o, d);
            let ts: Vec<f64> = items.iter().filter_map(|i| i.h.hit(&r, &universe())).map(|h| h.ray_length).filter(|t| t.is_finite()).collect();
            iv = if items.iter().any(|i| i.fog) { ahead() } else { interval(&mut c.rng, &ts) };
        }
        query(c, &items, &trees, &lights, o, d, iv)?;
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.cases("small lists", run.n(60000, 600000), |c| {
        let n = c.rng.below(12) as usize;
        let kind = c.rng.below(7);
        scene_case(c, n, kind, 40)
    });
    run.cases("lists", run.n(4000, 40000), |c| {
        let n = c.rng.log(12., 400.) as usize;
        let kind = c.rng.below(7);
        scene_case(c, n, kind, 100)
    });
    run.cases_on("large lists", run.n(30, 200), 3, |c| {
        let n = c.rng.log(1000., 20000.) as usize;
        let kind = c.rng.below(7);
        scene_case(c, n, kind, 60)
    });
    run.cases_on("very many coincident objects", run.n(1, 4), 1, |c| {
        let n = if c.thorough() { 100000 } else { 30000 };
        scene_case(c, n, 1, 20)
    });
}
