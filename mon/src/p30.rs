//! All workers take part
use crate::core::*;
use crate::geom::*;
use crate::hooks::*;
use crate::scene::*;
use solstrale::hittable::Hittables;
use solstrale::renderer::shader::*;
use solstrale::renderer::RenderImageStrategy;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const RULE: &str = "Each row of a render is held at its start, or when it has been computed, until as many rows are at work as there are workers (or rows, if fewer): if that many do not come together within half a minute, rows wait for each other for no reason. Numbers of workers from 1 to 40 and the default, all kinds of sizes, samples, shaders and post processors. While hierarchies of many objects are built, the processor time of each thread of the process is measured. Non-trivial: each meeting of several rows; counted by configuration and sample.";

#[derive(Default)]
struct Meeting {
    /// Rows at work
    inside: usize,
    most: usize,
    met: bool,
    given_up: bool,
}

fn world(r: &mut Rng) -> Hittables {
    let mut l = vec![far_light()];
    for _ in 0..r.int(1, 20) {
        let p = rand_in(r, 2.);
        l.push(build(&Shape::Sphere(p, r.range(0.1, 1.)), matte(rand_color(r))));
    }
    bvh(l)
}

/// Processor time of each thread of the process, in seconds
fn thread_times() -> HashMap<String, f64> {
    let mut times = HashMap::new();
    if let Ok(dir) = std::fs::read_dir("/proc/self/task") {
        for t in dir.flatten() {
            let text = std::fs::read_to_string(t.path().join("schedstat")).unwrap_or_default();
            if let Some(ns) = text.split_whitespace().next().and_then(|n| n.parse::<f64>().ok()) {
                times.insert(t.file_name().to_string_lossy().into(), ns * 1e-9);
            }
        }
    }
    times
}

pub fn run(run: &Run) {
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());

    run.cases_on("rows at the same time", run.n(1500, 20000), 1, |c| {
        let wanted = *c.rng.pick(&[None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(8), Some(13), Some(40)]);
        let h = c.rng.int(1, 60) as usize;
        let w = c.rng.int(1, 20) as usize;
        let n = c.rng.int(1, 4) as u32;
        let shader = c.rng.pick(&[AlbedoShader::new(), PathTracingShader::new(4), SimpleShader::new()]).clone();
        let mut cfg = config(w, h, n, shader);
        if c.rng.chance(0.3) {
            cfg.render_image_strategy = RenderImageStrategy::EverySample;
        }
        let sc = scene(world(&mut c.rng), camera(v(0., 0., 5.), v(0., 0., 0.), 50.), rand_color(&mut c.rng), cfg);
        let target = wanted.map_or(cores, |n| n as usize).min(h);
        let text = format!("{w}x{h}, {n} samples, {wanted:?} workers");
        c.sample(|| text.clone());
        // Before or after the computation of a row
        let place = *c.rng.pick(&["row_start", "row_done"]);
        let text = format!("{text}, meeting at {place}");
        let state = Arc::new((Mutex::new(HashMap::<u32, Meeting>::new()), Condvar::new()));
        let st = state.clone();
        let guard = Observing::new(Arc::new(move |point, sample, _| {
            let (lock, cond) = &*st;
            match point {
                p if p == place => {
                    let mut all = lock.lock().unwrap();
                    let given_up = all.values().any(|m| m.given_up);
                    let m = all.entry(sample).or_default();
                    m.inside += 1;
                    m.most = m.most.max(m.inside);
                    if m.inside >= target {
                        m.met = true;
                        cond.notify_all();
                    }
                    let start = Instant::now();
                    while !given_up && !all[&sample].met && !all[&sample].given_up {
                        all = cond.wait_timeout(all, Duration::from_millis(500)).unwrap().0;
                        if start.elapsed() > Duration::from_secs(30) && !all[&sample].met {
                            all.get_mut(&sample).unwrap().given_up = true;
                            cond.notify_all();
                        }
                    }
                }
                "row_merged" => lock.lock().unwrap().entry(sample).or_default().inside -= 1,
                _ => {}
            }
        }));
        workers(wanted);
        let res = render(sc);
        workers(None);
        drop(guard);
        res?.result.map_err(|e| format!("{text}: render fails: {e}"))?;
        let all = state.0.lock().unwrap();
        for k in 1..=n {
            let Some(m) = all.get(&k) else {
                return Err(format!("harness: no row of sample {k} was observed; {text}"));
            };
            c.eval();
            if target > 1 {
                c.distinct(hash_of((c.seed, k)));
                c.count(&format!("meetings of {target:02} rows"));
            }
            ensure!(m.met, "{text}: at most {} rows of sample {k} are worked on at the same time, should be {target}", m.most);
        }
        Ok(())
    });

    run.cases_on("building", run.n(4, 30), 1, |c| {
        if cores < 2 {
            return Ok(());
        }
        let mut seen = String::new();
        for attempt in 0..6u32 {
            let n = 60000 * (1 + attempt as usize);
            let list: Vec<Hittables> = (0..n)
                .map(|_| {
                    let p = rand_in(&mut c.rng, 100.);
                    build(&Shape::Sphere(p, c.rng.range(0.01, 0.3)), solid_metal(v(0.5, 0.5, 0.5)))
                })
                .collect();
            let before = thread_times();
            let tree = bvh(list);
            let after = thread_times();
            drop(tree);
            let mut spent: Vec<f64> = after
                .iter()
                .map(|(t, s)| s - before.get(t).copied().unwrap_or(0.))
                .filter(|s| *s > 0.)
                .collect();
            spent.sort_by(|a, b| b.total_cmp(a));
            let total: f64 = spent.iter().sum();
            let busy = spent.iter().filter(|s| **s > total * 0.05).count();
            seen = format!("building a hierarchy of {n} objects took {total:.3} s of processor time, of the threads {spent:.3?}");
            c.eval();
            if busy > 1 {
                c.distinct(c.seed);
                c.count(&format!("hierarchies built by {busy:02} threads"));
                return Ok(());
            }
        }
        Err(format!("{seen}: only one takes part"))
    });
}
