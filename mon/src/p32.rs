//! Renders and loads leave nothing behind
use crate::alloc;
use crate::core::*;
use crate::geom::*;
use crate::hooks::*;
use crate::p16::{scratch_dir, Scratch};
use crate::scene::*;
use image::{Rgb, RgbImage};
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{ConstantMedium, Hittables};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::texture::{load_normal_texture, ImageMap};
use solstrale::material::*;
use solstrale::post::{BloomPostProcessor, NopPostProcessor};
use solstrale::renderer::shader::*;
use solstrale::renderer::{RenderImageStrategy, RenderProgress, Renderer, Scene};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const RULE: &str = "The same scene is built, rendered and dropped dozens of times, and each render completes, is aborted or loses its consumer at some sample; the same files, whole or faulty, are loaded dozens of times. Bytes and blocks of memory in use, threads of the process, open files and references to shared images are counted after each time and must not grow. The highest memory use of renders of few and of many samples, whose reports are received at once, is compared: it must not grow with the samples. Non-trivial: each render or load; counted by configuration and round.";

fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}

fn files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

/// Waits until there are no more threads than that
fn settled(most: usize) -> bool {
    let start = Instant::now();
    while threads() > most {
        if start.elapsed() > Duration::from_secs(30) {
            return false;
        }
        std::thread::sleep(Duration::from_micros(300));
    }
    true
}

struct Plan {
    seed: u64,
    w: usize,
    h: usize,
    n: u32,
    objects: usize,
    shader: u64,
    posts: u64,
    strategy: u64,
    image: Arc<RgbImage>,
}

impl Plan {
    fn new(r: &mut Rng) -> Plan {
        let (a, b) = (r.int(1, 30) as u32, r.int(1, 30) as u32);
        Plan {
            seed: r.next(),
            w: r.int(1, 40) as usize,
            h: r.int(1, 40) as usize,
            n: r.int(1, 8) as u32,
            objects: r.int(1, 60) as usize,
            shader: r.below(4),
            posts: r.below(4),
            strategy: r.below(3),
            image: Arc::new(RgbImage::from_fn(a, b, |x, y| Rgb([x as u8 * 7, y as u8 * 5, 128]))),
        }
    }
    fn text(&self) -> String {
        format!(
            "{}x{}, {} samples, {} objects, shader {}, post processors {}, strategy {}",
            self.w, self.h, self.n, self.objects, self.shader, self.posts, self.strategy
        )
    }
    /// Always the same one
    fn scene(&self, n: u32) -> Scene {
        let r = &mut Rng::new(self.seed);
        let tex = || ImageMap::new(self.image.clone());
        let mut list = vec![far_light()];
        for _ in 0..self.objects {
            let p = rand_in(r, 2.);
            let mat = match r.below(6) {
                0 => Lambertian::new(tex(), None),
                1 => Lambertian::new(tex(), Some(tex())),
                2 => Dielectric::new(tex(), None, 1.5),
                3 => Metal::new(tex(), None, 0.1),
                4 => Blend::new(Lambertian::new(tex(), None), light(v(1., 2., 3.)), 0.3),
                _ => light(v(1., 1., 1.)),
            };
            let size = r.range(0.1, 0.6);
            let object = match r.below(5) {
                0 => build(&Shape::Tri(p, p + rand_dir(r) * size, p + rand_dir(r) * size), mat),
                1 => build(&Shape::Quad(p, rand_dir(r) * size, rand_dir(r) * size), mat),
                2 => ConstantMedium::new(build(&Shape::Sphere(p, size), mat), 1., v(0.5, 0.5, 0.5).s()),
                3 => bvh(solstrale::hittable::Quad::new_box(p.s(), (p + v(size, size, size)).s(), mat, &NopTransformer())),
                _ => build(&Shape::Sphere(p, size), mat),
            };
            list.push(object);
        }
        let shader = match self.shader {
            0 => AlbedoShader::new(),
            1 => NormalShader::new(),
            2 => SimpleShader::new(),
            _ => PathTracingShader::new(6),
        };
        let mut cfg = config(self.w, self.h, n, shader);
        cfg.render_image_strategy = match self.strategy {
            0 => RenderImageStrategy::EverySample,
            1 => RenderImageStrategy::Interval(Duration::from_micros(50)),
            _ => RenderImageStrategy::OnlyFinal,
        };
        let bloom = || BloomPostProcessor::new(0.05, Some(0.5), Some(1.)).expect("bloom");
        cfg.post_processors = match self.posts {
            0 => vec![],
            1 => vec![NopPostProcessor::new()],
            2 => vec![bloom()],
            _ => vec![bloom(), NopPostProcessor::new(), bloom()],
        };
        scene(bvh(list), camera(v(0., 0., 5.), v(0., 0., 0.), 50.), v(0.1, 0.2, 0.3), cfg)
    }
}

type Ends = (Mutex<Option<Receiver<RenderProgress>>>, Mutex<Option<Sender<bool>>>);

/// How a render ends: by itself, by abort or by a lost consumer, at some sample
fn one_render(renderer: &Renderer, end: u64, at: u32, point: &'static str) -> Result<(), String> {
    let (tx, rx) = channel();
    let (abort, abort_rx) = channel();
    let ends: Arc<Ends> = Arc::new((Mutex::new(Some(rx)), Mutex::new(Some(abort))));
    let e = ends.clone();
    let guard = Observing::new(Arc::new(move |p, sample, _| {
        if p == "reported" {
            // Reports do not pile up
            if let Some(rx) = &*e.0.lock().unwrap() {
                while rx.try_recv().is_ok() {}
            }
        }
        if p == point && sample == at {
            match end {
                1 => {
                    if let Some(a) = &*e.1.lock().unwrap() {
                        let _ = a.send(true);
                    }
                }
                2 => {
                    e.0.lock().unwrap().take();
                }
                _ => {}
            }
        }
    }));
    let res = no_panic(|| renderer.render(&tx, &abort_rx).map(|_| ()).map_err(|e| e.to_string()));
    drop(guard);
    drop(ends);
    match res {
        Err(p) => Err(format!("render panics: {p}")),
        // An error is right if there is no consumer
        Ok(Err(e)) if end != 2 => Err(format!("render fails: {e}")),
        _ => Ok(()),
    }
}

/// Repeats something and looks whether anything in use becomes more and more
fn repeated(c: &mut Case, what: &str, mut f: impl FnMut(usize) -> Res) -> Res {
    // Threads that end leave remains in the queues of rayon, which are collected in bulk, up to about a hundred
    // blocks: so a growth is only real if it goes on
    for rounds in [29, 362] {
        match grows(c, what, rounds, &mut f)? {
            None => return Ok(()),
            Some(text) if rounds > 100 => return Err(text),
            Some(_) => c.count("suspicious growth, repeated for longer"),
        }
    }
    Ok(())
}

fn grows(c: &mut Case, what: &str, rounds: usize, f: &mut impl FnMut(usize) -> Res) -> Result<Option<String>, String> {
    let mut live = Vec::with_capacity(rounds);
    let mut base_threads = 0;
    let mut base_files = 0;
    for i in 0..rounds {
        if i == 2 {
            // Pools that are for the whole process have been started by then
            let start = Instant::now();
            base_threads = threads();
            while start.elapsed() < Duration::from_millis(100) {
                base_threads = base_threads.min(threads());
                std::thread::sleep(Duration::from_millis(10));
            }
            base_files = files();
            alloc::start();
        }
        let res = f(i);
        if res.is_err() {
            alloc::stop();
            return res.map(|_| None).map_err(|e| format!("{what}: {e}"));
        }
        if i >= 2 {
            if !settled(base_threads) {
                alloc::stop();
                return Err(format!("{what}: {} threads are left after round {i}, there were {base_threads} before", threads()));
            }
            live.push(alloc::live());
        }
    }
    alloc::stop();
    let open = files();
    ensure!(open <= base_files, "{what}: {open} files are open, there were {base_files} before");
    for i in 0..rounds {
        c.eval();
        c.distinct(hash_of((c.seed, i)));
    }
    // The least of each third: what is left from a round is freed in a later one
    let third = live.len() / 3;
    let least = |k: usize, blocks: bool| {
        live[k * third..(k + 1) * third].iter().map(|l| if blocks { l.1 } else { l.0 }).min().unwrap_or(0)
    };
    for blocks in [true, false] {
        let m = [0, 1, 2].map(|k| least(k, blocks));
        let limit = match (blocks, rounds > 100) {
            (true, _) => third as i64 * 9 / 10,
            (false, true) => third as i64 * 16 + 250_000,
            (false, false) => third as i64 * 16,
        };
        if m[1] - m[0] > limit && m[2] - m[1] > limit {
            return Ok(Some(format!(
                "{what}: {} in use grow from {} over {} to {} in {rounds} rounds", if blocks { "blocks of memory" } else { "bytes" }, m[0], m[1], m[2]
            )));
        }
        if rounds > 100 {
            c.add(if blocks { "growth in long runs, blocks" } else { "growth in long runs, bytes" }, (m[2] - m[0]).max(0) as u64);
        }
    }
    Ok(None)
}

pub fn run(run: &Run) {
    run.cases_on("renders", run.n(40, 800), 1, |c| {
        let plan = Plan::new(&mut c.rng);
        let mut r = c.rng.clone();
        let reuse = c.rng.chance(0.3);
        let end = c.rng.below(4);
        let count = c.rng.int(1, 5) as u64;
        let text = format!("{}, {count} workers, end {end}, renderer reused: {reuse}", plan.text());
        c.sample(|| text.clone());
        workers(Some(count));
        let kept = if reuse { Some(Renderer::new(plan.scene(plan.n)).map_err(|e| e.to_string())?) } else { None };
        let references = Arc::strong_count(&plan.image);
        let res = repeated(c, &text, |_| {
            let renderer = match &kept {
                None => Some(Renderer::new(plan.scene(plan.n)).map_err(|e| e.to_string())?),
                Some(_) => None,
            };
            let at = r.int(1, plan.n as i64) as u32;
            let end = if end == 3 { r.below(3) } else { end };
            let point = *r.pick(&["sample_start", "row_start", "row_done", "row_merged", "report", "reported"]);
            one_render(kept.as_ref().or(renderer.as_ref()).unwrap(), end, at, point)?;
            drop(renderer);
            let now = Arc::strong_count(&plan.image);
            if now != references {
                return Err(format!("an image is referenced {now} times after the scene is dropped, {references} before"));
            }
            Ok(())
        });
        workers(None);
        res?;
        c.count(&format!("renders that ended in way {end}"));
        drop(kept);
        ensure!(Arc::strong_count(&plan.image) == 1, "{text}: an image is still referenced after all is dropped");
        Ok(())
    });

    run.cases_on("refused scenes", run.n(10, 100), 1, |c| {
        let plan = Plan::new(&mut c.rng);
        let text = format!("refused scene, {}", plan.text());
        repeated(c, &text, |_| {
            let mut s = plan.scene(plan.n);
            s.world = build(&Shape::Sphere(v(0., 0., 0.), 1.), Lambertian::new(ImageMap::new(plan.image.clone()), None));
            if Renderer::new(s).is_ok() {
                return Err("a scene without light is not refused".into());
            }
            if Arc::strong_count(&plan.image) != 1 {
                return Err("an image is still referenced".into());
            }
            Ok(())
        })
    });

    run.cases_on("many samples", run.n(24, 300), 1, |c| {
        let mut plan = Plan::new(&mut c.rng);
        plan.w = c.rng.int(16, 60) as usize;
        plan.h = c.rng.int(16, 60) as usize;
        plan.objects = 4;
        plan.posts = c.rng.below(2);
        let (few, many) = (12u32, 150u32);
        let count = c.rng.int(1, 5) as u64;
        let text = format!("{}, {count} workers", plan.text());
        workers(Some(count));
        let mut high = vec![];
        for n in [few, few, many] {
            let renderer = Renderer::new(plan.scene(n)).map_err(|e| e.to_string())?;
            let base = threads();
            // What is in use during a render, beyond what was in use before
            alloc::start();
            let before = alloc::live().0;
            alloc::peak();
            let res = one_render(&renderer, 0, 0, "");
            let most = alloc::peak() - before;
            settled(base);
            alloc::stop();
            res.map_err(|e| format!("{text}: {e}"))?;
            high.push(most);
            c.eval();
        }
        workers(None);
        c.distinct(hash_of((&text, c.seed)));
        let limit = high[1] + (plan.w * plan.h) as i64 * 24 * 12 + 100_000;
        c.add("bytes at most with many samples, total", high[2] as u64);
        ensure!(
            high[2] < limit,
            "{text}: at most {} bytes are in use with {few} samples, and {} with {many}", high[1], high[2]
        );
        Ok(())
    });

    run.cases_on("loads", run.n(100, 1200), 1, |c| {
        let dir = Scratch(scratch_dir("again", c));
        let path = format!("{}/", dir.0.display());
        let fault = if c.rng.chance(0.5) { 0 } else { c.rng.below(7) };
        let write = |name: &str, text: &str| std::fs::write(dir.0.join(name), text).map_err(|e| format!("harness: {e}"));
        let (w, h) = (c.rng.int(1, 30) as u32, c.rng.int(1, 30) as u32);
        let img = RgbImage::from_fn(w, h, |x, y| Rgb([x as u8 * 5, y as u8 * 3, 77]));
        img.save(dir.0.join("c.png")).map_err(|e| format!("harness: {e}"))?;
        RgbImage::from_pixel(w, h, Rgb([128, 128, 255])).save(dir.0.join("n.png")).map_err(|e| format!("harness: {e}"))?;
        let n = c.rng.int(1, 40);
        let mut obj = String::from("mtllib m.mtl\n");
        for i in 0..n {
            let p = rand_in(&mut c.rng, 3.);
            obj += &format!("v {} {} {}\nv {} {} {}\nv {} {} {}\nvt 0 0\nvt 1 0\nvt 0 1\n", p.0, p.1, p.2, p.0 + 1., p.1, p.2, p.0, p.1 + 1., p.2);
            let a = i * 3 + 1;
            obj += &format!("usemtl {}\nf {a}/{a} {}/{} {}/{}\n", if i % 2 == 0 { "a" } else { "b" }, a + 1, a + 1, a + 2, a + 2);
        }
        if fault == 1 {
            obj += "f 1 2 99999999\n";
        }
        if fault == 2 {
            obj += "f x y z\n";
        }
        write("m.obj", &obj)?;
        write("m.mtl", &format!("newmtl a\nKd 0.1 0.2 0.3\nmap_Kd c.png\nnewmtl b\nKd 1 1 1\nmap_Kd {}\nmap_Bump n.png\n", if fault == 3 { "missing.png" } else { "c.png" }))?;
        if fault == 4 {
            write("c.png", "no image")?;
        }
        if fault == 5 {
            write("n.png", "no image")?;
        }
        if fault == 6 {
            std::fs::remove_file(dir.0.join("m.mtl")).map_err(|e| format!("harness: {e}"))?;
        }
        c.count(&format!("loads with fault {fault}"));
        let text = format!("load of {n} triangles, {w}x{h} images, fault {fault}");
        c.sample(|| text.clone());
        let direct = c.rng.chance(0.2);
        let color = c.rng.chance(0.5);
        // Always the same files, or others
        let rename = c.rng.chance(0.7);
        let (mut image, mut model) = (if color { "c.png" } else { "n.png" }.to_string(), "m.obj".to_string());
        let name = |old: &mut String, new: String| {
            let res = std::fs::rename(dir.0.join(&*old), dir.0.join(&new)).map_err(|e| format!("harness: {e}"));
            *old = new;
            res
        };
        let whole = if color { fault != 4 } else { fault != 5 };
        // A texel that is always another one
        let paint = |name: &str, i: usize| {
            if !whole {
                return Ok(());
            }
            let mut img = if color { img.clone() } else { RgbImage::from_pixel(w, h, Rgb([128, 128, 255])) };
            img.put_pixel(0, 0, Rgb([i as u8, (i >> 8) as u8, 255]));
            img.save(dir.0.join(name)).map_err(|e| format!("harness: {e}"))
        };
        repeated(c, &text, |i| {
            if direct {
                if rename {
                    name(&mut image, format!("i{i:05}.png"))?;
                    paint(&image, i)?;
                }
                let p = format!("{path}{image}");
                let res = no_panic(|| if color { ImageMap::load(&p) } else { load_normal_texture(&p) }.map(|_| ()).map_err(|e| e.to_string()))
                    .map_err(|p| format!("panics: {p}"))?;
                return if res.is_ok() == whole { Ok(()) } else { Err(format!("{res:?}")) };
            }
            if rename {
                name(&mut model, format!("m{i:05}.obj"))?;
                if fault != 6 {
                    if color {
                        name(&mut image, format!("i{i:05}.png"))?;
                    }
                    paint(&image, i)?;
                    let lib = format!("newmtl a\nKd 0.1 0.2 0.3\nmap_Kd {}\nnewmtl b\nKd 1 1 1\nmap_Kd {image}\nmap_Bump n.png\n", if fault == 3 { "missing.png" } else { &image });
                    if color {
                        std::fs::write(dir.0.join("m.mtl"), lib).map_err(|e| format!("harness: {e}"))?;
                    }
                }
            }
            let res: Result<Hittables, String> = no_panic(|| {
                Obj::new(&path, &model).load(&NopTransformer(), None).map_err(|e| e.to_string())
            })
            .map_err(|p| format!("panics: {p}"))?;
            match (fault, res) {
                (0, Err(e)) => Err(format!("fails: {e}")),
                (0, Ok(_)) | (_, Err(_)) => Ok(()),
                (_, Ok(_)) => Err("a fault is not reported".into()),
            }
        })
    });
}
