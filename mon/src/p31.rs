//! Hierarchies make queries cheap
use crate::clock::{process_time, thread_time};
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use solstrale::hittable::{Hittable, Hittables};
use std::hint::black_box;

pub const RULE: &str = "Thousands of small objects that are spread out (in a volume, on planes and lines of any direction, on meshes, in grids, in clusters, at distances that double, in hierarchies of hierarchies) are asked for hits, through a hierarchy and one by one, with rays aimed at the region; the processor time per query through the hierarchy must be a small part of that of asking each. Building is timed with lists of different length: it must not grow like the square. Times are those of the thread or process and not of the clock, the least of several is taken. Non-trivial: each ray; counted by layout and ray.";

/// Centers of objects that are spread out, and the size they can have
fn layout(r: &mut Rng, kind: u64, n: usize) -> (Vec<V>, f64) {
    let (a, b, e) = frame(if r.chance(0.4) { *r.pick(&[v(1., 0., 0.), v(0., 1., 0.), v(0., 0., 1.)]) } else { rand_dir(r) });
    let place = v(r.range(-50., 50.), r.range(-50., 50.), r.range(-50., 50.));
    let nf = n as f64;
    match kind {
        0 => ((0..n).map(|_| place + rand_in(r, 10.)).collect(), 4. / nf.cbrt()),
        1 => ((0..n).map(|_| place + a * r.range(-10., 10.) + b * r.range(-10., 10.)).collect(), 4. / nf.sqrt()),
        2 => ((0..n).map(|_| place + e * r.range(-10., 10.)).collect(), 10. / nf),
        3 => {
            let k = nf.cbrt().ceil() as usize;
            let step = 20. / k as f64;
            let at = |i: usize| (i as f64 + 0.5) * step - 10.;
            (
                (0..n).map(|i| place + a * at(i % k) + b * at(i / k % k) + e * at(i / k / k)).collect(),
                step * 0.2,
            )
        }
        4 => {
            let centers: Vec<V> = (0..20).map(|_| rand_in(r, 10.)).collect();
            ((0..n).map(|i| place + centers[i % 20] + rand_in(r, 0.5)).collect(), 0.5 / nf.cbrt())
        }
        _ => {
            let k = nf.sqrt().ceil() as usize;
            let step = 20. / k as f64;
            let at = |i: usize| (i as f64 + 0.5) * step - 10.;
            (
                (0..n)
                    .map(|i| {
                        let (x, y) = (at(i % k), at(i / k));
                        place + a * x + b * y + e * (x.sin() + y.cos())
                    })
                    .collect(),
                step * 0.4,
            )
        }
    }
}

fn object(r: &mut Rng, shapes: u64, p: V, size: f64) -> Hittables {
    let s = size * r.range(0.3, 1.);
    let shape = match if shapes < 3 { shapes } else { r.below(3) } {
        0 => Shape::Sphere(p, s),
        1 => {
            let (a, b) = (rand_dir(r) * s, rand_dir(r) * s);
            Shape::Quad(p - a / 2. - b / 2., a, b)
        }
        _ => Shape::Tri(p, p + rand_dir(r) * s, p + rand_dir(r) * s),
    };
    build(&shape, solid_metal(v(0.5, 0.5, 0.5)))
}

fn asked(o: &[&Hittables], rays: &[(V, V)]) -> (f64, u64) {
    let start = thread_time();
    let mut hits = 0;
    for (p, d) in rays {
        let ray = ray(*p, *d);
        for h in o {
            hits += black_box(h.hit(&ray, &ahead())).is_some() as u64;
        }
    }
    ((thread_time() - start) / rays.len() as f64, hits)
}

pub fn run(run: &Run) {
    run.cases_on("queries", run.n(48, 600), 4, |c| {
        let kind = c.index % 6;
        let n = c.rng.log(5000., 30000.) as usize;
        let shapes = c.rng.below(4);
        let nested = c.rng.chance(0.25);
        let (centers, size) = layout(&mut c.rng, kind, n);
        let list: Vec<Hittables> = centers.iter().map(|p| object(&mut c.rng, shapes, *p, size)).collect();
        let tree = if nested {
            // Parts that do not overlap much
            let mut by: Vec<usize> = (0..n).collect();
            by.sort_by(|a, b| centers[*a].0.total_cmp(&centers[*b].0));
            bvh(by.chunks(n / 50).map(|part| bvh(part.iter().map(|i| list[*i].clone()).collect())).collect())
        } else {
            bvh(list.clone())
        };
        let rays: Vec<(V, V)> = (0..2000)
            .map(|_| {
                let p = *c.rng.pick(&centers) + rand_dir(&mut c.rng) * size * c.rng.range(0., 3.);
                let d = rand_dir(&mut c.rng);
                (p - d * c.rng.range(0., 40.), d)
            })
            .collect();
        let text = format!("{n} objects, layout {kind}, shapes {shapes}, nested {nested}");
        c.sample(|| text.clone());
        let each: Vec<&Hittables> = list.iter().collect();
        let mut best: Option<(f64, f64)> = None;
        for _ in 0..5 {
            let one = asked(&[&tree], &rays).0;
            let all = asked(&each, &rays[..20]).0;
            let (x, y) = best.map_or((one, all), |(x, y)| (one.min(x), all.max(y)));
            best = Some((x, y));
            if x < y / 16. {
                break;
            }
        }
        let (one, all) = best.unwrap();
        for (p, d) in &rays {
            c.distinct_f(&[p.0, p.1, p.2, d.0, d.1, d.2]);
        }
        c.evals(rays.len() as u64);
        c.add("total cost ratio", (all / one) as u64);
        c.count(&format!("layouts of kind {kind}"));
        ensure!(
            one < all / 6.,
            "{text}: a query takes {:.2} us, asking all of the objects takes {:.2} us", one * 1e6, all * 1e6
        );
        Ok(())
    });

    // The same layouts with more and more objects
    run.cases_on("growth", run.n(12, 120), 2, |c| {
        let kind = c.index % 6;
        let shapes = c.rng.below(4);
        let mut cost = vec![];
        for n in [1000usize, 64000] {
            let mut r = c.rng.clone();
            let (centers, size) = layout(&mut r, kind, n);
            let tree = bvh(centers.iter().map(|p| object(&mut r, shapes, *p, size)).collect());
            let rays: Vec<(V, V)> = (0..3000)
                .map(|_| {
                    let p = *r.pick(&centers) + rand_dir(&mut r) * size * r.range(0., 3.);
                    let d = rand_dir(&mut r);
                    (p - d * r.range(0., 40.), d)
                })
                .collect();
            let t = (0..5).map(|_| asked(&[&tree], &rays).0).fold(f64::INFINITY, f64::min);
            for (p, d) in &rays {
                c.distinct_f(&[p.0, p.1, p.2, d.0, d.1, d.2]);
            }
            c.evals(rays.len() as u64);
            cost.push(t);
        }
        c.add("total growth of the query cost", (cost[1] / cost[0]) as u64);
        ensure!(
            cost[1] < cost[0] * 40.,
            "layout {kind}, shapes {shapes}: a query takes {:.2} us with 1000 objects and {:.2} us with 64000", cost[0] * 1e6, cost[1] * 1e6
        );
        Ok(())
    });

    run.cases_on("building", run.n(8, 80), 1, |c| {
        let kind = c.index % 7;
        let shapes = c.rng.below(4);
        let mut cost = vec![];
        for n in [6000usize, 96000] {
            let mut least = f64::INFINITY;
            for _ in 0..3 {
                let mut r = c.rng.clone();
                let list: Vec<Hittables> = if kind == 6 {
                    // All in one place
                    (0..n).map(|_| object(&mut r, shapes, v(1., 2., 3.), 1.)).collect()
                } else {
                    let (centers, size) = layout(&mut r, kind, n);
                    centers.iter().map(|p| object(&mut r, shapes, *p, size)).collect()
                };
                let start = process_time();
                let tree = bvh(list);
                least = least.min(process_time() - start);
                c.eval();
                drop(tree);
                if cost.first().is_some_and(|first| least < first * 40.) {
                    break;
                }
            }
            cost.push(least);
        }
        c.distinct(c.seed);
        c.add("total growth of the cost of building", (cost[1] / cost[0]) as u64);
        ensure!(
            cost[1] < cost[0] * 100.,
            "layout {kind}, shapes {shapes}: building takes {:.4} s with 6000 objects and {:.4} s with 96000", cost[0], cost[1]
        );
        Ok(())
    });
}
